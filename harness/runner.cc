// Runs a generated program: runner log
#include <clocale>
#include <cstdio>
#include "front.h"
void run();
int main(int, char **argv) {
    setlocale(LC_ALL, "C.UTF-8");
    NanoLog::setLogFile(argv[1]);
    NanoLog::setLogLevel(DEBUG);
    run();
    NanoLog::sync();
    return 0;
}
