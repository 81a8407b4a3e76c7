#!/usr/bin/env python3
"""plant(id, prop, [(file, old, new)], demo_body, needs, breaks): writes
/verif/seeded/<id> from an edit of a scratch copy of /repo."""
import json, os, subprocess
S = "/verif/seeded"
W = "/tmp/sw/w0/repo"
DEMO = r'''#!/bin/bash
# builds demo.cpp against the libraries of the current tree and runs it
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
B=/repo/_build/lib
g++ -std=c++17 -g -O0 -w -I/repo/include -isystem /usr/lib/llvm-14/include -isystem /usr/include/libxml2 \
  "$D/demo.cpp" -o "$T/demo" $B/Solver/libVaRASolver.a $B/Sampling/libVaRASampling.a $B/Configuration/libVaRAConfiguration.a \
  $B/Feature/libVaRAFeature.a /usr/lib/llvm-14/lib/libLLVM-14.so -lxml2 -lz3 -lstdc++fs || exit 3
cd "$T" && timeout 120 ./demo
'''
HEAD = r'''#include "vara/Configuration/Configuration.h"
#include "vara/Feature/ConstraintBuilder.h"
#include "vara/Feature/ConstraintParser.h"
#include "vara/Feature/FeatureModel.h"
#include "vara/Feature/FeatureModelBuilder.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelTransaction.h"
#include "vara/Feature/FeatureModelWriter.h"
#include "vara/Feature/OrderedFeatureVector.h"
#include "vara/Feature/StepFunctionParser.h"
#include "vara/Sampling/SampleSetWriter.h"
#include "vara/Solver/ConfigurationFactory.h"
#include "vara/Solver/Z3Solver.h"
#include <iostream>
#include <set>
using namespace vara::feature;
using namespace vara::solver;
using std::make_unique;
#define CHECK(x) do { if (!(x)) { std::cerr << "demo: " << #x << " does not hold\n"; return 1; } } while (0)
'''


def plant(i, prop, edits, demo, needs, breaks, sh=None):
    subprocess.run("git -C %s checkout -q -f ." % W, shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(S, i)
    os.makedirs(d, exist_ok=True)
    r = subprocess.run("git -C %s diff" % W, shell=True, stdout=subprocess.PIPE, text=True)
    open(d + "/patch.diff", "w").write(r.stdout)
    open(d + "/demo.sh", "w").write(sh or DEMO)
    if demo:
        open(d + "/demo.cpp", "w").write(HEAD + demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run("git -C %s checkout -q -f ." % W, shell=True, check=True)
