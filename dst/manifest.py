"""Writes MANIFEST.json (run by hand after a change of the list of properties)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
T = 'deterministic simulation with fault injection: '
HOW = {
    'C01': ('seeded building histories and orders, console and numeric-kernel faults with retry; oracle: independent pose propagation along the declared links',
            'sampled executions; poses are compared with a tolerance of 1e-6 relative to path length'),
    'C02': ('seeded histories, failed and repeated adjustments; oracle: independent quadrature of every piece chained from the road start', 'sampled executions; tolerance as C01'),
    'C03': ('seeded networks, insertion orders, failed and repeated adjustments; oracle: reference model of lane linking', 'sampled executions; link multiset compared exactly'),
    'C04': ('seeded networks with junctions generated before or after adjustment, mixed numbering; oracle: reference model and the emitted lane links', 'sampled executions; tables compared exactly'),
    'C05': ('seeded line/bytecode scheduling of up to 4 threads with simulated locks; oracle: uniqueness over the recorded history', 'sampled schedules; switches at lines and bytecodes of pyodrx frames, single C calls atomic'),
    'C06': ('simulated file layer (short writes, encodings, newline conventions, earlier contents); oracle: reference reader of the bytes left on disk', 'sampled executions'),
    'C07': ('errors at every open/write/close and kill at any byte, restart and retry; oracle: old-or-new-or-not-well-formed, errors reported, nothing left open', 'sampled faults; bytes accepted by the file layer survive in order'),
    'C08': ('seeded thread schedules, interrupts at any source line, console and disk faults, clock jumps; oracle: snapshot equality and clock readings', 'sampled schedules and faults'),
    'C09': ('seeded line/bytecode schedules of 2-4 building clients; oracle: the same program alone in a fresh simulated process', 'sampled schedules'),
    'C10': ('console and numeric-kernel faults at any call of the adjustment, retries, extensions; oracle: refinement of one fault-free adjustment', 'sampled faults and histories'),
    'C11': ('seeded networks and orders; liveness as a step bound, plus reachability model', 'sampled networks; polynomial step bound counted in executed lines'),
    'C12': ('file faults and kills under a recording process launcher; oracle: order and content of file effects at launch', 'sampled faults; launcher is a stand-in'),
    'C13': ('seeded interleavings of accepted and rejected calls; oracle: the same history without the rejected calls', 'sampled histories'),
    'C14': ('seeded interleavings of clients with console faults and retries; oracle: reference model of numbering and linking', 'sampled histories and faults'),
    'C15': ('fresh interpreters under permuted environments and the simulated clock; oracle: byte equality', 'sampled programs and environments; two Python implementations'),
    'C16': ('seeded query histories and bytecode schedules on shared pieces; oracle: a fresh piece asked once, and independent geometry', 'sampled histories and schedules'),
    'C17': ('seeded call histories with console faults and retries; oracle: reference model', 'sampled histories and faults'),
    'C18': ('seeded interleavings of clients, rejected calls, faults and emissions; oracle: reference model of the emitted document', 'sampled histories and faults'),
}
NA = {
    'C19': 'a pure function of the constructor arguments: no schedule, clock, I/O, fault or history takes part, so there is nothing to simulate',
    'C20': 'a fixed table from enumeration members to text: no schedule, clock, I/O, fault or history takes part',
    'C21': 'a pure function of the constructor arguments: no schedule, clock, I/O, fault or history takes part',
    'C22': 'a pure geometric identity of the generator formulas: no schedule, clock, I/O, fault or history decides it (what the simulator can decide about generated crossings is in C01-C04, C10, C11)',
    'C23': 'a numeric identity of one quadrature: no schedule, clock, I/O, fault or history takes part',
}


def main():
    m = {'version': 1, 'setup_cmd': './setup',
         'hooks': {'guard': 'PYODRX_REPO', 'enable': 'no hook in /repo: every seam (trace events, open, sys.stdout, clock, process launch, numeric kernel, environment) is taken from outside; '
                   'PYODRX_REPO only names the source tree to load and defaults to /repo', 'source_commits': []},
         'checks': [{'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p, 'technique': T + h[0],
                     'level': 'exploration', 'level_note': h[1], 'evidence_file': 'evidence/%s.json' % p} for p, h in sorted(HOW.items())],
         'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())],
         'notes': 'Replay a violation with ./check --replay FILE. Seeds: VERIF_SEED (default 1). DST_RUNS, DST_WALL, DST_WORKERS bound an exploration.'}
    with open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
