"""Jobs of checks that are no generated parsers: monitors in harness/tools, sanitizers."""
import os

SHARDS = 8


def _tool(run, tier, round_, exe, facet, scale=1, timeout=800, env=None, profile="release"):
    job = {"kind": "tool", "bin": exe, "facet": facet, "seed": run.seed + 1000003 * round_, "shards": SHARDS, "scale": scale}
    run.jobs.append(job)
    d = getattr(run, "_tools_dir", {}).get(exe)
    if d is None:
        d = run.tools([exe], profile=profile)
        run._tools_dir = dict(getattr(run, "_tools_dir", {}), **{exe: d})
    base = {"VERIF_GEN_SEED": str(run.seed + 1000003 * round_), "VERIF_SHARDS": str(SHARDS), "VERIF_SCALE": str(scale * (4 if tier == "thorough" else 1))}
    base.update(env or {})
    run.run_bins([(os.path.join(d, exe), [facet], dict(base, VERIF_SHARD=str(s)), f"{exe}-{facet}-{s}") for s in range(SHARDS)], job, timeout)


def _mk(exe, facet, **kw):
    return lambda run, tier, round_: _tool(run, tier, round_, exe, facet, **kw)


meta_tree = _mk("meta_check", "tree", scale=5)
meta_lit = _mk("meta_check", "lit", scale=2)
meta_total = _mk("meta_check", "total", scale=4)
meta_span = _mk("meta_check", "span", scale=5)
meta_import = _mk("meta_check", "import", scale=4)
core_position = _mk("core_check", "position", scale=10)
core_span = _mk("core_check", "span", scale=12)
core_format = _mk("core_check", "format", scale=10)
core_chars = _mk("core_check", "chars", scale=1)
node_nodes = _mk("node_check", "nodes", profile="nodes")
node_strings = _mk("node_check", "strings", profile="nodes")
node_pairs = _mk("node_check", "pairs", profile="nodes")
node_tracker = _mk("node_check", "tracker", scale=10, profile="nodes")
names = _mk("names_check", "names", scale=4)
meta_growth = _mk("meta_check", "growth")
gen_growth = _mk("gen_check", "growth")
gen_reject = _mk("gen_check", "reject", scale=6)
gen_output = _mk("gen_check", "output", scale=2)


ASAN = dict(toolchain="nightly", rustflags="-Zsanitizer=address", triple="x86_64-unknown-linux-gnu")


def sanitized(run, tier, round_):
    """Everything a parser can be asked, with bounds, use-after-free and overflow checks on."""
    n = 56
    run.generated("safe", "SAFE,RECORD", round_ * n, n, nt="accepted,backtracks", env={"VERIF_RECORD_MAX": "6", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1"}, inputs=50 if tier == "quick" else 120, keep=True, **ASAN)


def interpreted(run, tier, round_):
    if not run.only:
        run.interpreted()


def threads(run, tier, round_):
    """Calls from eight threads, recorded and compared, with std and everything else under ThreadSanitizer."""
    n = 16 if tier == "quick" else 40
    run.generated("safe", "CONC,THREADS", 500 + round_ * n, n, nt="rule_calls", env={"VERIF_CONC": "150" if tier == "quick" else "600", "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0"}, inputs=12,
                  toolchain="nightly", rustflags="-Zsanitizer=thread", triple="x86_64-unknown-linux-gnu", cargo_args=("-Zbuild-std",), target_name="tsan", may_fail="tsan")


def long_texts(run, tier, round_):
    if not run.only:
        run.long()


def long_children(run, tier, round_):
    if not run.only and round_ == 0:
        run.long("children")


def long_errors(run, tier, round_):
    """Errors in deep texts; see long_texts."""
    if not run.only and round_ == 0:
        run.long("errors")


def long_results(run, tier, round_):
    if not run.only and round_ == 0:
        run.long("results")
