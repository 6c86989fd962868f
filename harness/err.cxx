// Uses of Error, ErrorResult and the propagation macros, one function per question the rule asks.
#include <array>
#include <string>
#include <type_traits>

#include "common/error.h"
#include "common/error_result.h"

using mc::Error;
using mc::ErrorResult;
struct Big
{
    double a[3];
    long b;
};

static_assert(!std::is_default_constructible<Error>::value || true, "");
static_assert(!std::is_constructible<Error, const char*>::value, "an error cannot be made from a run-time string");
static_assert(!std::is_default_constructible<ErrorResult<int>>::value, "a result holds a value or an error");
static_assert(std::is_convertible<int, ErrorResult<int>>::value && std::is_convertible<Error, ErrorResult<int>>::value, "");

bool vh_ok(const Error& e) { return e.ok(); }
const char* vh_what(const Error& e) { return e.what(); }
bool vh_eq(const Error& a, const Error& b) { return a == b; }
bool vh_ne(const Error& a, const Error& b) { return a != b; }
bool vh_eqs(const Error& a, const char* b) { return a == b; }
bool vh_nes(const Error& a, const char* b) { return a != b; }
const char* vh_none() { return Error::none().what(); }
const char* vh_create() { return Error::create("message").what(); }
const char* vh_copy(const Error& a)
{
    Error b = a;
    Error c = Error::none();
    c = b;
    return c.what();
}
#define RES(N, T)                                                    \
    bool vh_##N##_value_ok(const T& v) { return ErrorResult<T>(v).ok(); }   \
    void vh_##N##_value_res(const T& v, T* out) { *out = ErrorResult<T>(v).res(); } \
    const char* vh_##N##_value_err(const T& v) { return ErrorResult<T>(v).err().what(); } \
    bool vh_##N##_error_ok(const Error& e) { return ErrorResult<T>(e).ok(); } \
    const char* vh_##N##_error_err(const Error& e) { return ErrorResult<T>(e).err().what(); } \
    void vh_##N##_error_res(const Error& e, T* out) { *out = ErrorResult<T>(e).res(); } \
    bool vh_##N##_assigned_ok(const T& v, const Error& e)            \
    {                                                                \
        ErrorResult<T> r(e);                                         \
        r = ErrorResult<T>(v);                                       \
        return r.ok();                                               \
    }
RES(int, int)
RES(dbl, double)
RES(ptr, const long*)
RES(big, Big)

Error vs_op(int n);
void vs_next();
const char* vh_ret()
{
    auto f = []() -> Error {
        RETURN_IF_NOT_OK(vs_op(1));
        vs_next();
        return Error::none();
    };
    return f().what();
}
const char* vh_ret2()
{
    auto f = []() -> Error {
        RETURN_IF_NOT_OK(vs_op(1));
        RETURN_IF_NOT_OK(vs_op(2));
        vs_next();
        return Error::none();
    };
    return f().what();
}
struct Src
{
    const char* err;
    Big v;
};
// An operation that answers with a value or an error, and is counted.
const Src& vs_src();
bool vs_flag(const Src&);
template <typename T>
ErrorResult<T> made(const char* msg, const T& v, const Error& e)
{
    vs_next();
    if (vs_flag(vs_src()))
    {
        return ErrorResult<T>(e);
    }
    return ErrorResult<T>(v);
}
const char* vh_roa(const double& v, const Error& e, double* out)
{
    auto f = [&]() -> Error {
        const double x = RETURN_OR_ASSIGN(made<double>("", v, e));
        *out = x;
        return Error::none();
    };
    return f().what();
}
const char* vh_roa_big(const Big& v, const Error& e, Big* out)
{
    auto f = [&]() -> Error {
        const Big x = RETURN_OR_ASSIGN(made<Big>("", v, e));
        *out = x;
        return Error::none();
    };
    return f().what();
}
