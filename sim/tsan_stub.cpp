#include <cstddef>
extern "C" void sim_on_free(void *, size_t) {}
