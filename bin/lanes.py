"""Builds of the simulator ("lanes") and the work each property does in them."""

RULES = {
    "C01": "a run is non-trivial if at least two calls were made while two or more wrappers were live",
    "C02": "a run is non-trivial if captures were destroyed (drop or once-call) and a panic was injected or threads were interleaved",
    "C03": "a run is non-trivial if blocks were obtained and wrappers dropped, and a release error, destructor panic, leak or thread switch occurred",
    "C04": "a run is non-trivial if a construction failed because of an injected allocator error or panic",
    "C05": "a run is non-trivial if at least two write windows were opened and two or more wrappers were live",
    "C06": "a run is non-trivial if memory of a dropped wrapper was recycled and calls were made, with instruction fetch that ignores unflushed stores",
    "C07": "a run is non-trivial if blocks were placed by the simulated allocator and called",
    "C08": "a run is non-trivial if a thread was preempted inside, or waited for, the global allocator while several blocks were requested",
    "C09": "a run is non-trivial if an operating-system failure was injected and wrappers were built or dropped",
    "C10": "a run is non-trivial if a panic was injected into a closure body called through an unwinding bare function",
    "C11": "a run is non-trivial if a wrapper around a zero-sized closure was built while the allocator refuses requests",
    "C12": "a run is non-trivial if wrappers were destroyed in thread-local teardown or leaked functions were called after their thread ended",
    "C13": "a run is non-trivial if user code re-entered the library",
    "C14": "a run is non-trivial if requests were forwarded through a handle and a wrapper was built",
    "C15": "a run is non-trivial if two threads were inside the same function at once",
    "C16": "a run is non-trivial if at least two conversions or leaks were made",
    "C19": "a run is non-trivial if a bare function was called in the middle of another operation of the same thread while all other threads stood still",
}

NIGHTLY = "+nightly-2026-10-29"
STABLE = "+1.99.1"


def cross(arch, qemu, gcc, libc, env=None, **kw):
    triple = arch + ("-unknown-linux-gnueabihf" if qemu == "qemu-arm" else "-unknown-linux-gnu")
    var = triple.upper().replace("-", "_")
    e = {"CARGO_TARGET_%s_LINKER" % var: gcc}
    if qemu:
        e["CC_" + triple.replace("-", "_")] = gcc
    return dict(triple=triple, env=e, runner=["setarch", "-R", qemu, "-L", libc] if qemu else [], **kw)


I686 = ("i686", "", "gcc-13", "")
A64 = ("aarch64", "qemu-aarch64", "aarch64-linux-gnu-gcc", "/usr/aarch64-linux-gnu")
ARM = ("qemu-arm", "arm-linux-gnueabihf-gcc", "/usr/arm-linux-gnueabihf")

# "optional": the repository does not build this combination of features itself; if it does not
# compile, the lane is left out and the evidence says so.
LANES = {
    # Optimised build with the built-in allocators: the main lane.
    "x64": dict(args=["--release", "--features", "lane-default"], prof="release"),
    # Unoptimised build: other entry code, larger thunks, overflow checks.
    "x64-debug": dict(args=["--features", "lane-default"], prof="debug"),
    # Library without std: the global allocator is guarded by a spin lock.
    "x64-spin": dict(args=["--release", "--features", "lane-spin"], prof="release", optional=True),
    # Global allocator registered by the user.
    "x64-custom": dict(args=["--release", "--features", "lane-custom"], prof="release"),
    # Unstable features: variadic functions, tuple trait.
    "x64-nightly": dict(args=["--release", "--features", "lane-nightly"], prof="release", toolchain=NIGHTLY),
    # Entry code copied as it is, instead of being relocated.
    "x64-plain": dict(args=["--release", "--features", "lane-plain,few"], prof="release", optional=True),
    # Other machines, with their own entry code, relocation and calling conventions. No stepping by
    # instruction and no operating-system faults there.
    "i686": cross(*I686, args=["--release", "--features", "lane-custom,few"], prof="release", toolchain=STABLE),
    "i686-debug": cross(*I686, args=["--features", "lane-custom,few"], prof="debug", toolchain=STABLE),
    "aarch64": cross(*A64, args=["--release", "--features", "lane-custom,few"], prof="release", toolchain=STABLE),
    "armv7": cross("armv7", *ARM, args=["--release", "-Zbuild-std", "--features", "lane-custom,few"], prof="release", toolchain=NIGHTLY),
    "thumb": cross("thumbv7neon", *ARM, args=["--release", "-Zbuild-std", "--features", "lane-custom,few"], prof="release", toolchain=NIGHTLY),
}

# property: [(lane, runs in the quick tier, runs in the thorough tier)]
WORK = {
    "C01": [("x64", 8000, 150000), ("i686", 4000, 60000), ("x64-debug", 2000, 50000), ("x64-nightly", 2000, 50000),
            ("aarch64", 400, 20000), ("x64-custom", 1500, 30000), ("armv7", 400, 20000), ("thumb", 400, 20000), ("x64-plain", 1500, 30000)],
    "C02": [("x64", 10000, 200000), ("x64-nightly", 2000, 30000)],
    "C03": [("x64", 10000, 200000), ("x64-custom", 2000, 30000), ("thumb", 300, 10000)],
    "C04": [("x64", 9000, 150000), ("x64-custom", 3000, 50000)],
    "C05": [("x64", 9000, 150000), ("x64-debug", 3000, 50000), ("thumb", 300, 10000), ("aarch64", 300, 10000)],
    "C06": [("x64", 9000, 150000), ("x64-debug", 3000, 50000), ("thumb", 300, 10000), ("aarch64", 300, 10000)],
    "C07": [("x64", 9000, 150000), ("x64-debug", 3000, 50000), ("i686", 3000, 50000), ("i686-debug", 1000, 20000), ("aarch64", 400, 10000),
            ("armv7", 300, 10000), ("thumb", 300, 10000)],
    "C08": [("x64", 5000, 100000), ("x64-spin", 1500, 30000)],
    "C09": [("x64", 16000, 200000), ("x64-spin", 4000, 50000)],
    "C10": [("x64", 9000, 150000), ("x64-debug", 3000, 50000), ("i686", 3000, 50000)],
    "C11": [("x64", 12000, 200000), ("x64-custom", 3000, 50000), ("i686", 2000, 30000)],
    "C12": [("x64", 12000, 200000)],
    "C13": [("x64", 9000, 150000), ("x64-custom", 3000, 50000)],
    "C14": [("x64-custom", 8000, 150000), ("x64", 6000, 50000)],
    "C15": [("x64", 8000, 150000), ("x64-debug", 2000, 50000), ("i686", 1000, 20000)],
    "C16": [("x64", 10000, 200000), ("x64-nightly", 2000, 30000)],
    "C19": [("x64", 3000, 100000), ("x64-debug", 800, 30000), ("x64-spin", 800, 20000), ("i686", 500, 20000)],
}

# Seconds of exploration after which a lane stops even if runs are left.
LIMIT = {"quick": 150, "thorough": 1500}
