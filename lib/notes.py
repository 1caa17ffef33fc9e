"""Texts of MANIFEST.json."""
TRACE = "TLA+ specification checked with TLC; traces of the real library validated against it with TLC"
TECHNIQUE = {}
NA = {}
COMMON = ("TLC decides every recorded call of the real library (optimised and checked builds) against the TLA+ "
          "specification; the inputs are enumerated or drawn by the generators (boundary-directed, seeded), so the "
          "assurance is over the explored inputs. Trusted: TLC, the Java overrides of 256-bit arithmetic (compared with their "
          "TLA+ definitions by MCBigNat), the executor.")
NOTE = {f"C{i:02d}": COMMON for i in range(1, 29)}
NOTE["C28"] = ("Two runs of an abstract machine side by side (non-interference) are explored exhaustively with TLC; real executions "
               "are watched under valgrind (addresses of instructions and data) and TLC compares every two that give away the same: they touch the same places in the same order and run the same number of instructions, up to 16 that touch nothing. "
               "Over the secrets explored, on this compiler and processor; trusted: TLC, valgrind's lackey tool, the filter.")

for _i in ("C01", "C03", "C04", "C08", "C09", "C11", "C15", "C17", "C18", "C20"):
    TECHNIQUE[_i] = (TRACE + "; word-level TLA+ specification decided at full size by Apalache")
