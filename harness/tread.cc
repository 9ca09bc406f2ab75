// Prints timestamp, rendered time (UTC) and text of every message of the given logs.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "Log.h"
using namespace NanoLogInternal;
int main(int argc, char **argv) {
    setenv("TZ", "UTC0", 1);
    for (int a = 1; a < argc; ++a) {
        Log::Decoder dec; if (!dec.open(argv[a])) { printf("noopen\n"); continue; }
        Log::LogMessage lm; char *mem = nullptr; size_t len = 0; FILE *o = open_memstream(&mem, &len);
        for (int n = 0; n < 10000; ++n) {
            rewind(o); fflush(o); if (mem) memset(mem, 0, len);
            if (!dec.getNextLogStatement(lm, o)) break;
            fflush(o); printf("%d %lu %.*s\n", a, (unsigned long)lm.getTimestamp(), (int)strcspn(mem, "\r\n"), mem);
        }
        fclose(o); free(mem);
    }
}
