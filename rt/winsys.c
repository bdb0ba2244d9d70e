/* system() of a Windows build of smlrcc: logs the command line (4-byte length, text) and makes the output named by
   WINSYS_OUT convention: none; always succeeds. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int winsys(char* cmd)
{
  FILE* f = fopen(getenv("FAKE_LOG"), "ab");
  unsigned n = (unsigned)strlen(cmd);
  if (!f) return 1;
  fwrite(&n, 4, 1, f);
  fwrite(cmd, 1, n, f);
  fclose(f);
  return 0;
}
