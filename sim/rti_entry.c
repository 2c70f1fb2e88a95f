// Entry of the RTI node: the text is its command line.
#include <stdlib.h>
#include <string.h>
int rti_real_main(int argc, const char* argv[]);
int rti_entry(const char* text) {
  char* t = strdup(text);
  const char* argv[64];
  int n = 0;
  argv[n++] = "rti";
  for (char* p = strtok(t, " \n"); p && n < 63; p = strtok(NULL, " \n")) argv[n++] = p;
  argv[n] = NULL;
  return rti_real_main(n, argv);
}
