// standalone:
// flags: -DDRJIT_USE_STD_MUTEX -Wno-self-move
// The lock of the library in its std::mutex configuration
#include "containers.cpp"
