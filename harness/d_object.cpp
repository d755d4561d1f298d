// replays histories of operations on Gyoto objects
#include "heap.h"
static void script(std::vector<std::string> const &lines) { for (auto &l : lines) drv::obs(heap::command(drv::split(l))); }
int main() { Gyoto::Register::init("stdplug"); Gyoto::verbose(0); return drv::loop(script, 120); }
