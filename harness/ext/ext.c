/* What (load-extension "libscribbu" "init_scribbu") finds: the program that
   runs the script has the library linked in, and exports its symbols. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>

void
init_scribbu(void)
{
  void (*f)(void) = (void (*)(void)) dlsym(RTLD_DEFAULT, "init_scribbu");
  if (!f)
    abort();
  f();
}
