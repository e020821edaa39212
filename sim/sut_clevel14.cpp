#include "sut_clevel.hpp"
static const char *variant_name(int) { return "clevel-adapter"; }
static void *create(int, size_t, int)
{
    Container *c = new clevel::container_type(mkopt(), false);
    return c;
}
static const SutApi api = {1, variant_name, create, op, thread_begin, WL_NONE, 0, nullptr};
extern "C" const SutApi *sut_api() { return &api; }
extern "C" void *sut_touch_tls() { return &localThreadNum; }
