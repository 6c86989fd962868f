// stand-in for yaml-cpp used by the analysis only: every node operation is an external call on a node handle
#pragma once
#include <string>
#include <vector>
extern "C" {
long vs_new();
long vs_index(long, const char*);
long vs_index_s(long, const std::string*);
long vs_index_i(long, long);
void vs_set(long, long);
void vs_int(long, long);
void vs_real(long, double);
void vs_text(long, const char*);
void vs_str(long, const std::string*);
void vs_push(long, long);
void vs_push_int(long, long);
void vs_push_str(long, const std::string*);
long vs_defined(long);
long vs_is(long, int);
long vs_load(const std::string*);
void vs_reset(long);
long vs_as_int(long);
double vs_as_real(long);
unsigned long vs_size(long);
}
namespace YAML {
struct NodeType { enum value { Undefined, Null, Scalar, Sequence, Map }; };
struct Node
{
    long h;
    struct Handle { long h; };
    Node() : h(vs_new()) {}
    explicit Node(Handle x) : h(x.h) {}
    explicit Node(NodeType::value) : h(vs_new()) {}
    Node(const Node& o) : h(o.h) {}
    ~Node() {}
    Node operator[](const char* k) const { return Node(Handle{vs_index(h, k)}); }
    Node operator[](const std::string& k) const { return Node(Handle{vs_index_s(h, &k)}); }
    Node operator[](int i) const { return Node(Handle{vs_index_i(h, i)}); }
    Node operator[](unsigned i) const { return Node(Handle{vs_index_i(h, i)}); }
    Node operator[](long i) const { return Node(Handle{vs_index_i(h, i)}); }
    Node operator[](unsigned long i) const { return Node(Handle{vs_index_i(h, (long)i)}); }
    Node& operator=(const Node& o) { vs_set(h, o.h); return *this; }
    Node& operator=(int v) { vs_int(h, v); return *this; }
    Node& operator=(unsigned v) { vs_int(h, v); return *this; }
    Node& operator=(long v) { vs_int(h, v); return *this; }
    Node& operator=(unsigned long v) { vs_int(h, (long)v); return *this; }
    Node& operator=(bool v) { vs_int(h, v); return *this; }
    Node& operator=(double v) { vs_real(h, v); return *this; }
    Node& operator=(const char* v) { vs_text(h, v); return *this; }
    Node& operator=(const std::string& v) { vs_str(h, &v); return *this; }
    void push_back(const Node& o) { vs_push(h, o.h); }
    void push_back(int v) { vs_push_int(h, v); }
    void push_back(const std::string& v) { vs_push_str(h, &v); }
    bool IsDefined() const { return vs_defined(h); }
    bool IsNull() const { return vs_is(h, NodeType::Null); }
    bool IsScalar() const { return vs_is(h, NodeType::Scalar); }
    bool IsSequence() const { return vs_is(h, NodeType::Sequence); }
    bool IsMap() const { return vs_is(h, NodeType::Map); }
    explicit operator bool() const { return vs_defined(h); }
    bool operator!() const { return !vs_defined(h); }
    unsigned long size() const { return vs_size(h); }
    void reset(const Node& = Node()) { vs_reset(h); }
    template <typename T>
    T as() const;
};
std::string Dump(const Node&);
Node LoadFile(const std::string&);
Node Load(const std::string&);
template <> inline int Node::as<int>() const { return (int)vs_as_int(h); }
template <> inline long Node::as<long>() const { return vs_as_int(h); }
template <> inline bool Node::as<bool>() const { return vs_as_int(h); }
template <> inline double Node::as<double>() const { return vs_as_real(h); }
template <> inline float Node::as<float>() const { return (float)vs_as_real(h); }
}  // namespace YAML
