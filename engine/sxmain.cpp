// Entry point of a harness binary: harness CASE SUB (no argument: list the cases)
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include "case.h"
extern "C" void sx_finish(int);
int SUB = 0;
bool THOROUGH = false;
static Case* head = 0;
Case::Case(const char* n, const char* m, int q, int t, const char* o, void (*f)()) : name(n), mode(m), nq(q), nt(t), opts(o), fn(f), next(head) { head = this; }
int main(int argc, char** argv) {
    if (argc < 2) { for (Case* c = head; c; c = c->next) std::printf("%s %s %d %d %s\n", c->name, c->mode, c->nq, c->nt, c->opts); return 0; }
    if (argc > 2) SUB = std::atoi(argv[2]);
    const char* tier = std::getenv("SX_TIER"); THOROUGH = tier && !std::strcmp(tier, "thorough");
    for (Case* c = head; c; c = c->next)
        if (!std::strcmp(c->name, argv[1])) {
            int st = 0;
            try { c->fn(); } catch (std::exception& e) { std::fprintf(stderr, "EXCEPTION %s\n", e.what()); st = 3; } catch (...) { st = 3; }
            sx_finish(st);
        }
    return 9;
}
