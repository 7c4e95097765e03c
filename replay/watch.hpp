// Keeps the case being run on disk so that a crash (sanitizer abort) leaves its input behind.
#pragma once
#include <cstdio>
#include <string>
#include <unistd.h>
static void watch_case(const std::string& out, const std::string& prop, const std::string& text) {
    static FILE* f = nullptr; static std::string cur;
    if (cur != out) { if (f) fclose(f); f = fopen(out.c_str(), "w"); cur = out; }
    if (!f) return;
    rewind(f); fprintf(f, "# running %s\n%s", prop.c_str(), text.c_str()); fflush(f); if (ftruncate(fileno(f), ftell(f))) {}
}
static void watch_fail(const std::string& out, const std::string& why, const std::string& text) {
    FILE* f = fopen(out.c_str(), "w"); if (!f) return; fprintf(f, "# %s\n%s", why.c_str(), text.c_str()); fclose(f);
}
static void watch_clear(const std::string& out) { unlink(out.c_str()); }
