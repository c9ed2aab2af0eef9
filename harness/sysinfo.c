/* The few non-TLS things the library takes from its TLS module, which cannot be built here. */
#include <unistd.h>
#undef close
const char *events_uname(void) { return "verif"; }
const char *events_hostname(void) { return "verif"; }
const char *events_sysname(void) { return "verif"; }
void tls_closer(int s) { if (s) close(s); }
