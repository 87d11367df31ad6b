// Scenario registry.
#pragma once
#include "sim.h"
struct Scenario {
    const char *prop, *name; int weight; void (*fn)(); bool coordinator; Scenario *next;
    Scenario(const char *p, const char *n, int w, void (*f)(), bool co = false) : prop(p), name(n), weight(w), fn(f), coordinator(co), next(head) { head = this; }
    static Scenario *head;
};
#define SCENARIO(prop, name, weight) static void scn_##name(); static Scenario reg_##name(prop, #name, weight, scn_##name); static void scn_##name()
// Runs outside the simulation and starts simulated processes with sim::run_incarnation().
#define COORDINATOR(prop, name, weight) static void scn_##name(); static Scenario reg_##name(prop, #name, weight, scn_##name, true); static void scn_##name()
