// Stand-in for the commands flatdata::generate() starts: the generator itself, python3 -m venv and pip3 install.
// Its plan is the file "plan" next to the directory it was started from: lines "<what> <action> <number>", what = venv, pip or the path of a schema in hex.
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static char root[3000];
static int number;

static void hex(const char* s, char* o) { *o = 0; while (*s) o += sprintf(o, "%02x", (unsigned char)*s++); }

static char* action(const char* what)
{
    static char line[10000], act[32];
    char p[4000], key[9000];
    snprintf(p, sizeof p, "%s/plan", root);
    FILE* f = fopen(p, "r");
    strcpy(act, "ok");
    while (f && fgets(line, sizeof line, f))
        if (sscanf(line, "%8999s %31s %d", key, act, &number) == 3 && !strcmp(key, what)) { fclose(f); return act; }
    if (f) fclose(f);
    strcpy(act, "ok");
    number = 0;
    return act;
}

static void put(const char* p, const char* b, size_t n)
{
    FILE* f = fopen(p, "wb");
    if (!f || fwrite(b, 1, n, f) != n || fclose(f)) exit(1);
}

int main(int argc, char** argv)
{
    char self[4000], p[4200], line[20000], *a;
    snprintf(root, sizeof root, "%s", getenv("STUB_ROOT"));
    snprintf(self, sizeof self, "%s/stub", root);
    snprintf(p, sizeof p, "%s/log", root);
    FILE* log = fopen(p, "a");
    char* base = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
    fprintf(log, "%s", base);
    for (int i = 0; i < argc; i++) { hex(argv[i], line); fprintf(log, " %s", line); }
    fprintf(log, "\n");
    fclose(log);
    if (!strcmp(base, "python3")) {
        a = action("venv");
        if (!strcmp(a, "fail")) return number;
        snprintf(p, sizeof p, "%s/bin/", argv[3]);
        for (char* c = p + 1; *c; c++)
            if (*c == '/') { *c = 0; mkdir(p, 0755); *c = '/'; }
        snprintf(p, sizeof p, "%s/bin/pip3", argv[3]); unlink(p); symlink(self, p);
        return 0;
    }
    if (!strcmp(base, "pip3")) {
        a = action("pip");
        if (!strcmp(a, "fail")) return number;
        snprintf(p, sizeof p, "%.*s/flatdata-generator", (int)(strlen(argv[0]) - 5), argv[0]); unlink(p); symlink(self, p);
        return 0;
    }
    char *in = 0, *out = 0, *lang = 0;
    for (int i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "-s")) in = argv[i + 1];
        else if (!strcmp(argv[i], "-O")) out = argv[i + 1];
        else if (!strcmp(argv[i], "-g")) lang = argv[i + 1];
    }
    if (!in || !out || !lang) return 2;
    hex(in, line);
    a = action(line);
    FILE* f = fopen(in, "rb");
    if (!f) return 3;
    static char b[1 << 16];
    int n = sprintf(b, "// %s\n", lang);
    size_t k = fread(b + n, 1, sizeof b - n, f);
    if (ferror(f)) return 3;
    fclose(f);
    n += (int)k;
    if (!strcmp(a, "none")) return number;
    if (!strcmp(a, "part")) { put(out, b, n / 2); return number; }
    if (!strcmp(a, "full")) { put(out, b, n); return number; }
    if (!strcmp(a, "kill")) { put(out, b, n / 2); signal(number, SIG_DFL); raise(number); pause(); }
    if (!strcmp(a, "vanish")) { snprintf(p, sizeof p, "%s/stub", root); unlink(p); }
    put(out, b, n);
    return 0;
}
