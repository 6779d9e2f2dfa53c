// C interface to the table of a module's functions
#include "pybind11/pybind11.h"
using namespace pybind11;
void vf_module(module_ &m);
static std::vector<Value> in, out;
static std::string msg;
extern "C" {
const char *vf_names() {
    static std::string s;
    if (table().empty()) { module_ m; vf_module(m); }
    s.clear();
    for (auto &x : table()) s += x.first + "\n";
    return s.c_str();
}
void vf_reset() { in.clear(), out.clear(); }
void vf_int(long i) { in.push_back(mkval(int(i))); }
void vf_float(double f) { in.push_back(mkval(f)); }
void vf_array(char kind, int nd, const long *shape, void *p) {
    Value v;
    v.kind = kind, v.ptr = p;
    for (int i = 0; i < nd; ++i) v.shape.push_back(shape[i]);
    in.push_back(v);
}
int vf_call(const char *name) {
    vf_names();
    auto it = table().find(name);
    if (it == table().end()) return -2;
    try {
        it->second(in, out);
        return out.size();
    } catch (const std::exception &e) {
        msg = e.what();
        return -1;
    }
}
const char *vf_message() { return msg.c_str(); }
char vf_kind(int k) { return out[k].kind; }
double vf_number(int k) { return out[k].kind == 'f' ? out[k].f : double(out[k].i); }
int vf_ndim(int k) { return out[k].shape.size(); }
long vf_shape(int k, int i) { return out[k].shape[i]; }
void *vf_data(int k) { return out[k].ptr; }
}
