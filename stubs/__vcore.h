
#ifndef VCORE
#define VCORE
typedef unsigned long size_t; typedef long ptrdiff_t; typedef long ssize_t;
#ifndef NULL
#define NULL __null
#endif
typedef signed char int8_t; typedef short int16_t; typedef int int32_t; typedef long int64_t;
typedef unsigned char uint8_t; typedef unsigned short uint16_t; typedef unsigned int uint32_t; typedef unsigned long uint64_t;
typedef unsigned long uintptr_t; typedef long intptr_t; typedef long intmax_t; typedef unsigned long uintmax_t;
#define UINT64_C(c) c##UL
#define INT64_C(c) c##L
#define UINT32_C(c) c##U
#define INT_MAX 2147483647
#define INT_MIN (-2147483647-1)
#define UINT_MAX 4294967295U
#define LONG_MAX 9223372036854775807L
#define LONG_MIN (-9223372036854775807L-1L)
#define ULONG_MAX 18446744073709551615UL
#define LLONG_MAX 9223372036854775807LL
#define LLONG_MIN (-9223372036854775807LL-1LL)
#define ULLONG_MAX 18446744073709551615ULL
#define SHRT_MAX 32767
#define SHRT_MIN (-32768)
#define FLT_MAX 3.40282346638528859812e+38F
#define FLT_MIN 1.17549435082228750797e-38F
#define FLT_EPSILON 1.19209289550781250000e-7F
#define LDBL_MAX 1.18973149535723176502e+4932L
#define LDBL_MIN 3.36210314311209350626e-4932L
#define INT32_MAX INT_MAX
#define INT64_MAX LONG_MAX
#define SIZE_MAX ULONG_MAX
#define FLT_MAX_EXP 128
#define DBL_MAX_EXP 1024
#define LDBL_MAX_EXP 16384
#define DBL_EPSILON 2.2204460492503131e-16
#define LDBL_EPSILON 1.08420217248550443401e-19L
#define DBL_MAX 1.7976931348623157e308
#define DBL_MIN 2.2250738585072014e-308
extern "C" {
void __vassert(bool);
double __vinf();
double exp(double); double log(double); double lgamma(double); double tgamma(double); double pow(double,double); double sqrt(double);
double ldexp(double,int); double frexp(double,int*); double fabs(double); double floor(double); double ceil(double); double round(double);
double fmin(double,double); double fmax(double,double); double log1p(double); double expm1(double); double fma(double,double,double); double exp2(double); double log2(double); double trunc(double);
double scalbn(double,int);
long double expl(long double); long double logl(long double); long double lgammal(long double); long double tgammal(long double);
long double powl(long double,long double); long double sqrtl(long double); long double ldexpl(long double,int); long double frexpl(long double,int*); long double fabsl(long double); long double scalbnl(long double,int); long double exp2l(long double);
int ilogb(double); int ilogbl(long double);
long lround(double); 
void* malloc(size_t); void* calloc(size_t,size_t); void free(void*); int abs(int); long labs(long); void exit(int); void abort();
double strtod(const char*, char**); long strtol(const char*, char**, int); long long strtoll(const char*, char**, int); long double strtold(const char*, char**);
double atof(const char*); int atoi(const char*); long atol(const char*);
void* memcpy(void*, const void*, size_t); void* memset(void*, int, size_t); void* memmove(void*, const void*, size_t);
char* strerror(int); int strcmp(const char*, const char*); size_t strlen(const char*); size_t strspn(const char*, const char*); size_t strcspn(const char*, const char*); int strncmp(const char*, const char*, size_t);
int* __verrno();
typedef long time_t; time_t time(time_t*); typedef long clock_t; clock_t clock();
int printf(const char*, ...); int puts(const char*); 
int isspace(int); int isdigit(int);
void* _mm_malloc(size_t, size_t); void _mm_free(void*);
}
#define errno (*__verrno())
#define ERANGE 34
#define EINVAL 22
#define EXIT_SUCCESS 0
#define EXIT_FAILURE 1
#define INFINITY (__vinf())
#define HUGE_VAL (__vinf())
namespace std {
using ::size_t; using ::ptrdiff_t; using ::int8_t; using ::int16_t; using ::int32_t; using ::int64_t; using ::uint8_t; using ::uint16_t; using ::uint32_t; using ::uint64_t;
using ::exp; using ::log; using ::lgamma; using ::tgamma; using ::pow; using ::sqrt; using ::ldexp; using ::frexp; using ::fabs; using ::floor; using ::ceil; using ::round; using ::fmin; using ::fmax; using ::log1p; using ::expm1; using ::fma; using ::exp2; using ::log2; using ::trunc; using ::scalbn; using ::ilogb; using ::lround;
using ::malloc; using ::calloc; using ::free; using ::labs; using ::exit; using ::abort; using ::strtod; using ::strtol; using ::strtoll; using ::strtold; using ::atof; using ::atoi; using ::atol;
using ::memcpy; using ::memset; using ::memmove; using ::strerror; using ::strcmp; using ::strlen; using ::strspn; using ::strcspn; using ::strncmp; using ::time_t; using ::time; using ::clock_t; using ::clock; using ::printf; using ::puts; using ::isspace; using ::isdigit;
inline long double exp(long double x){return expl(x);} inline long double log(long double x){return logl(x);} inline long double lgamma(long double x){return lgammal(x);} inline long double tgamma(long double x){return tgammal(x);}
inline long double pow(long double x,long double y){return powl(x,y);} inline long double sqrt(long double x){return sqrtl(x);} inline long double ldexp(long double x,int e){return ldexpl(x,e);} inline long double frexp(long double x,int*e){return frexpl(x,e);}
inline long double fabs(long double x){return fabsl(x);}
inline double exp(int x){return exp((double)x);} inline double log(int x){return log((double)x);} inline double sqrt(int x){return sqrt((double)x);} inline double lgamma(int x){return lgamma((double)x);}
inline double sqrt(long x){return sqrt((double)x);} inline double sqrt(unsigned long x){return sqrt((double)x);}
inline double floor(int x){return (double)x;} inline double ceil(int x){return (double)x;}
inline double pow(double x,int y){return pow(x,(double)y);}
inline int abs(int x){return x<0?-x:x;} inline long abs(long x){return x<0?-x:x;} inline double abs(double x){return fabs(x);} inline long double abs(long double x){return fabsl(x);}
template<class T> bool isnan(T x){return x!=x;}
typedef decltype(nullptr) nullptr_t;
template<class T> struct remove_reference { typedef T type; };
template<class T> struct remove_reference<T&> { typedef T type; };
template<class T> struct remove_reference<T&&> { typedef T type; };
template<class T> typename remove_reference<T>::type&& move(T&& x) { return static_cast<typename remove_reference<T>::type&&>(x); }
template<class T> T&& forward(typename remove_reference<T>::type& x) { return static_cast<T&&>(x); }
template<class T> void swap(T& a, T& b) { T t = a; a = b; b = t; }
template<class A, class B> struct pair { typedef A first_type; typedef B second_type; A first; B second; pair() {} pair(const A& a, const B& b) : first(a), second(b) {} };
template<class A, class B> pair<A,B> make_pair(A a, B b) { return pair<A,B>(a, b); }
template<class T> struct numeric_limits { };
#define V_FLIM(T, MX, MN, EP) template<> struct numeric_limits<T> { static T infinity(){return __vinf();} static T max(){return MX;} static T lowest(){return -MX;} static T epsilon(){return EP;} static T min(){return MN;} };
V_FLIM(double, DBL_MAX, DBL_MIN, DBL_EPSILON)
V_FLIM(float, FLT_MAX, FLT_MIN, FLT_EPSILON)
V_FLIM(long double, LDBL_MAX, LDBL_MIN, LDBL_EPSILON)
#define V_ILIM(T, MX, MN) template<> struct numeric_limits<T> { static T max(){return MX;} static T min(){return MN;} static T lowest(){return MN;} static T infinity(){return 0;} };
V_ILIM(int, INT_MAX, INT_MIN)
V_ILIM(unsigned int, UINT_MAX, 0)
V_ILIM(short, SHRT_MAX, SHRT_MIN)
V_ILIM(long, LONG_MAX, LONG_MIN)
V_ILIM(unsigned long, ULONG_MAX, 0)
V_ILIM(long long, LLONG_MAX, LLONG_MIN)
V_ILIM(unsigned long long, ULLONG_MAX, 0)
template<class E> class initializer_list { const E* b; size_t n; public: const E* begin() const; const E* end() const; size_t size() const; };
template<class T> struct less { bool operator()(const T& a, const T& b) const { return a < b; } };
template<class T> struct greater { bool operator()(const T& a, const T& b) const { return a > b; } };
template<class T> struct plus { T operator()(const T& a, const T& b) const { return a + b; } };
template<class T> struct minus { T operator()(const T& a, const T& b) const { return a - b; } };
template<class T> struct multiplies { T operator()(const T& a, const T& b) const { return a * b; } };
}
#endif
