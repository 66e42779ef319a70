#include <string.h>
#include <stdlib.h>
#include "kv.h"
extern "C" void __kv_run_harness_(const char* name) {
  for (KvReg* r = KvReg::head(); r; r = r->next) if (!strcmp(r->name, name)) { r->fn(); return; }
  abort();
}
