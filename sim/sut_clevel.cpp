#include "sut_clevel.hpp"
static const char *variant_name(int v) { return v == 0 ? "clevel-2" : v == 1 ? "clevel-3" : "clevel-4"; }
static void *create(int v, size_t, int)
{
    Container *c;
    if (v == 0) c = new Small<2>();
    else if (v == 1) c = new Small<3>();
    else c = new Small<4>();
    return c;
}
static const SutApi api = {3, variant_name, create, op, thread_begin, WL_NONE, 0, nullptr};
extern "C" const SutApi *sut_api() { return &api; }
extern "C" void *sut_touch_tls() { return &localThreadNum; }
