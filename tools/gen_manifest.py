#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "Trusts the reference models in refmodel/ (written from the standards, sharing no code with /repo)."
T = {
    "C01": ("property-based testing against a FIPS 203 reference model", MODEL),
    "C02": ("property-based testing against a FIPS 203 reference model, with synthetic keys", MODEL),
    "C03": ("property-based testing against a FIPS 203 reference model, with solved-for accepting keys", MODEL),
    "C04": ("property-based testing: enumerated and random ciphertext alterations against SHAKE256(z||c)", MODEL),
    "C05": ("property-based testing: round trip over all path combinations", "Needs no model; decides agreement on generated pairs and paths."),
    "C06": ("property-based testing: encode/parse round trips and layout against a model", MODEL),
    "C07": ("property-based testing: metamorphic comparison with the reduced encoding", MODEL),
    "C08": ("property-based testing with a scripted, counting random generator", "Decides functional dependence on the generator for scripted outputs, redraws included."),
    "C09": ("stateful model-based testing over operation histories, repetition and shared keys in threads", MODEL + " Thread schedules are whatever the machine produces."),
    "C10": ("fuzzing with structured generators under overflow and debug checks, AddressSanitizer and Miri", "Only panics, signals, sanitizer and Miri reports, hangs and Err results count; Miri sees a small sample."),
    "C11": ("property-based testing against an X-Wing reference model", MODEL),
    "C12": ("property-based testing against an X-Wing reference model", MODEL),
    "C13": ("property-based testing: encode/parse round trips, equality against the model", MODEL),
    "C14": ("property-based testing: metamorphic pairs of ciphertexts and recipients", "Decides distinctness on generated pairs, chosen where components coincide."),
    "C15": ("property-based testing against an independent curve arithmetic model", MODEL),
    "C16": ("property-based testing against an RFC 7748 reference model", MODEL),
    "C17": ("property-based testing: agreement and wrapper transparency", "Wrapper operations are compared with those of the wrapped value over many inner types."),
    "C18": ("property-based testing: metamorphic comparison of memory images after drop", "Reads the object's own memory, in place and at deallocation; copies on the stack or in registers are out of scope."),
    "C19": ("differential property-based testing across builds (features x profiles x targets)", "Compares about twenty builds for x86_64, two for wasm32 (32-bit) and, in few cases, s390x (big-endian, under Miri); one compiler."),
    "C20": ("relational property-based testing of execution traces (basic blocks, callgrind counts)", "IR-level block sequence plus machine-level instruction and branch counts; not memory addresses or latencies."),
    "C21": ("relational property-based testing of execution traces (basic blocks, callgrind counts)", "As C20. The arithmetic of the curves lies in dependencies, which are traced along; for secp256k1 only lengths and counts are compared."),
    "C22": ("property-based testing: allocator calls and stack use measured per operation", "Stack depth is that of this compiler's release build on x86_64, measured by what is overwritten below the caller."),
    "C23": ("relational property-based testing of memory address traces", "Loads and stores of the optimized IR up to 16 bytes and spans of libc copies, dependencies included; not spills, not latencies. secp256k1 is left out."),
}
checks = []
for i in sorted(T):
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": T[i][0],
        "level": "exploration",
        "level_note": T[i][1],
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": []}, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
