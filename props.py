"""Which monitored workloads decide which property."""
REL = "g++ -std=gnu++17 -O2 -DNDEBUG"
SAN = ("g++ -std=gnu++17 -O1 -g1 -DNDEBUG -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined "
       "-fno-sanitize-recover=all -fno-omit-frame-pointer")
SF = ("@REPO/src/app/size_function.cpp", "g++ -std=gnu++17 -O0 -DTQMESH_USE_EXPRTK")   # the expression library compiles slowly
APP = " -DTQMESH_USE_EXPRTK"
BINS = {
    "tqh": {"cc": REL, "src": ["@H/main.cpp"]},
    "tqu": {"cc": REL, "src": ["@H/units.cpp"]},
    "tqh_san": {"cc": SAN, "src": ["@H/main.cpp"], "cpu": 240},
    "tqu_san": {"cc": SAN, "src": ["@H/units.cpp"], "cpu": 240},
    "tqmesh": {"cc": REL + APP, "src": ["@REPO/src/app/main.cpp", SF]},
    "tqmesh_san": {"cc": SAN + APP, "src": ["@REPO/src/app/main.cpp", SF]},
    "tqa": {"cc": REL + APP, "src": ["@H/app.cpp", SF], "needs": ["tqmesh"]},
    "tqa_san": {"cc": SAN + APP, "src": ["@H/app.cpp", SF], "needs": ["tqmesh_san"], "cpu": 240},
    "tqp": {"cc": REL, "src": ["@H/para.cpp"]},
    "tqp_san": {"cc": SAN, "src": ["@H/para.cpp"]},
}


def J(b, p, n, **k):
    return dict(bin=b, profile=p, n=n, **k)


WELL_POSED = ("domains are generated well-posed (simple polygons, holes inside and apart from each other, scale 0.6 to 100, "
              "element size not larger than the smallest feature allows)")
MESH_RULE = ("an execution counts when at least one oracle evaluation of this property was made in it; executions are "
             "distinguished by a hash over all coordinates, element and edge index lists of the meshes observed")

PROPS = {
    "C01": dict(jobs=[J("tqh", "tri", 2400), J("tqh", "chunk", 400), J("tqh", "layer", 500), J("tqh", "ops", 500), J("tqh", "multi", 400)],
                rule=MESH_RULE, assumptions=[WELL_POSED]),
    "C02": dict(jobs=[J("tqh", "tri", 2400), J("tqh", "layer", 800), J("tqh", "layerops", 300), J("tqh", "ops", 300)], rule=MESH_RULE, assumptions=[WELL_POSED]),
    "C03": dict(jobs=[J("tqh", "tri", 1500), J("tqh", "ops", 500), J("tqh", "layerops", 300), J("tqh", "multi", 600)], rule=MESH_RULE, assumptions=[WELL_POSED]),
    "C04": dict(jobs=[J("tqu", "verdict", 500), J("tqh", "tri", 2000), J("tqh", "layer", 600), J("tqh", "chunk", 300), J("tqh", "multi", 600)], rule=MESH_RULE, assumptions=[WELL_POSED]),
    "C05": dict(jobs=[J("tqh", "ops", 800), J("tqh", "layerops", 500), J("tqh", "multi", 1600)], rule=MESH_RULE, assumptions=[WELL_POSED]),
    "C06": dict(jobs=[J("tqh", "ops", 800), J("tqh", "layerops", 500), J("tqh", "multi", 2000)], rule=MESH_RULE, assumptions=[WELL_POSED]),
    "C07": dict(jobs=[J("tqh", "ops", 800), J("tqh", "layerops", 500), J("tqh", "multi", 1600)], rule=MESH_RULE, assumptions=[WELL_POSED]),
    "C08": dict(jobs=[J("tqh", "multi", 5000)], rule=MESH_RULE, assumptions=[WELL_POSED]),
    "C09": dict(jobs=[J("tqh", "multi", 5000)], rule=MESH_RULE, assumptions=[WELL_POSED]),
    "C10": dict(jobs=[J("tqh", "tri", 1500), J("tqh", "fe", 700), J("tqh", "layerops", 400), J("tqh", "multi", 1500)], rule=MESH_RULE, assumptions=[WELL_POSED]),
    "C11": dict(jobs=[J("tqu", "layerb", 3000), J("tqh", "layer", 800)], rule=MESH_RULE, assumptions=[WELL_POSED]),
    "C12": dict(jobs=[J("tqu", "write", 3000), J("tqh", "multi", 1500)], rule=MESH_RULE, assumptions=[WELL_POSED]),
    "C13": dict(jobs=[J("tqu", "write", 3000), J("tqh", "multi", 1500)], rule=MESH_RULE, assumptions=[WELL_POSED]),
    "C14": dict(jobs=[J("tqu", "cont", 20000), J("tqu_san", "cont", 1200)],
                rule="operation sequences on the container; distinguished by a hash over all query result sizes and the number of tree leafs",
                assumptions=["item coordinates lie inside the tree's square; scales are such that cell borders are exact or points keep off them"]),
    "C15": dict(jobs=[J("tqu", "size", 3000)], rule="probed size functions, distinguished by a hash over the values", assumptions=[WELL_POSED]),
    "C16": dict(jobs=[J("tqu", "invalid", 8000), J("tqu_san", "invalid", 1200)], rule="kinds of invalid input and the domain they were derived from", assumptions=["defects of domains exceed the tolerances of the predicates"]),
    "C17": dict(jobs=[J("tqh_san", "tri", 240), J("tqh_san", "fe", 64), J("tqh_san", "chunk", 48), J("tqh_san", "layer", 240), J("tqh_san", "multi", 400), J("tqh_san", "ops", 64), J("tqh_san", "layerops", 80),
                      J("tqu_san", "write", 200), J("tqu_san", "layerb", 80), J("tqu_san", "repeat", 40), J("tqu_san", "verdict", 48), J("tqu_san", "pred", 160), J("tqu_san", "size", 64), J("tqu_san", "cont", 1200), J("tqu_san", "invalid", 1200), J("tqu_san", "shape", 800), J("tqu_san", "math", 160), J("tqu_san", "log", 160), J("tqu_san", "edit", 48), J("tqp_san", "para", 400), J("tqa_san", "app", 100)],
                any_event=True, rule="executions under AddressSanitizer and UndefinedBehaviorSanitizer, distinguished by a hash of what the monitors saw", assumptions=[WELL_POSED, "only code reached by the workloads is observed"], budget=120),
    "C18": dict(jobs=[J("tqu", "repeat", 1600), J("tqh", "multi", 800)], rule=MESH_RULE, assumptions=[WELL_POSED]),
    "C19": dict(jobs=[J("tqp", "para", 20000), J("tqp_san", "para", 1200)], rule="parameter files, distinguished by a hash of their text", assumptions=["files follow the documented grammar: one definition per line or block, keywords do not occur inside comments behind values"]),
    "C20": dict(jobs=[J("tqa", "app", 4000)], rule="runs of the application, distinguished by a hash over the parameter file", assumptions=[WELL_POSED]),
    "C21": dict(jobs=[J("tqu", "shape", 30000)], rule="boundary definitions, distinguished by a hash of the resulting edges", assumptions=[]),
    "C22": dict(jobs=[J("tqp", "foam", 700)], rule="converted meshes, distinguished by a hash over all coordinates and index lists", assumptions=[WELL_POSED]),
    "C24": dict(jobs=[J("tqu", "pred", 6000)], rule="exact-arithmetic comparisons on lattice points and domains, distinguished by a hash over the results", assumptions=["predicates are compared on coordinates where their absolute tolerance does not matter"]),
    "C25": dict(jobs=[J("tqh", "tri", 2400), J("tqh", "fe", 500), J("tqh", "chunk", 600), J("tqh", "multi", 1500)], rule=MESH_RULE, assumptions=[WELL_POSED]),
    "C26": dict(jobs=[J("tqh", "tri", 2400), J("tqh", "fe", 600), J("tqh", "chunk", 600)], rule=MESH_RULE, assumptions=[WELL_POSED, "size functions vary by at most a factor of ten over the domain"]),
    "C27": dict(jobs=[J("tqu", "math", 4000)], rule="sequences of vector, matrix and helper operations, distinguished by a hash over the results", assumptions=["no overflow, no division by zero"]),
    "C28": dict(jobs=[J("tqu", "log", 6000)], rule="sequences of settings and messages, distinguished by a hash over the expected output", assumptions=["one thread"]),
    "C29": dict(jobs=[J("tqu", "edit", 2000), J("tqu_san", "edit", 100)], rule="edit histories of domains, distinguished by a hash over the mesh of the final state", assumptions=["fixed vertices are removed after their fixed edges, vertices only when no edge uses them"]),
    "C30": dict(jobs=[J("tqh", "tri", 900), J("tqh", "chunk", 200), J("tqh", "layer", 300), J("tqh", "ops", 300), J("tqh", "layerops", 400), J("tqh", "multi", 900)], rule=MESH_RULE, assumptions=[WELL_POSED]),
}
