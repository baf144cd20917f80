"""Per property: quick run count, what makes a run count as nontrivial, what ran for real, what was a stand-in, what is assumed."""

REAL = ['pyodrx (all modules, re-executed from the working tree for every simulated process)', 'xml.etree, xml.dom.minidom, io, codecs of the interpreter',
        'pyclothoids, scipy.integrate']
CONSOLE = 'console (sys.stdout): collected in memory, any write can fail'
FILES = 'file layer below the buffers: records every operation, short writes, errors, crash; bytes land in a scratch directory'
CLOCK = 'clock (datetime.datetime.now/today/utcnow, time.*): simulated'
SCHED = 'thread scheduler: one thread runs at a time, switches decided by the seed at source lines / bytecodes of pyodrx; Lock/RLock of threading simulated'
LAUNCH = 'process launch (os.system, subprocess): records the command and the files at that moment'
KERNEL = 'numeric kernel calls (pyclothoids.Clothoid, scipy.integrate.quad) can be made to raise'
CRASH = 'process kill: abandons the simulated process, only bytes handed to the file layer stay; restart re-executes the library'

BASE = ['a seed explores one execution; the space of programs, schedules and faults is sampled, not exhausted',
        'single calls of xml.etree and of the file layer are atomic; switches happen at lines and bytecodes of pyodrx frames',
        'the reference model is written from the statement and from OpenDRIVE conventions, not from the code under test']


def R(quick, rule, stub, extra=(), real=REAL):
    return {'quick': quick, 'rule': rule, 'real': real, 'stub': stub, 'assumptions': BASE + list(extra)}


RULES = {
    'C01': R(5000, 'a run counts if the network was adjusted successfully at least once and had at least one road link to judge; distinct by the digest of its event log (every call with result, every fault)',
             [CONSOLE, KERNEL, CLOCK], ['positions are compared with 1e-6 m (plus 1e-12 of the coordinate), headings with 1e-7 rad modulo full turns']),
    'C02': R(5000, 'a run counts if at least one road with two or more pieces was placed; distinct by the digest of its event log', [CONSOLE, KERNEL, CLOCK],
             ['the end of each piece is recomputed by an independent quadrature of its defining parameters']),
    'C03': R(5000, 'a run counts if an adjustment succeeded, or reported a lane mismatch, in a network with road links; distinct by the digest of its event log', [CONSOLE, KERNEL, CLOCK]),
    'C04': R(5000, 'a run counts if a junction was generated or numbered connections were added; distinct by the digest of its event log', [CONSOLE, KERNEL, CLOCK]),
    'C05': R(6000, 'a run counts if the scheduler switched threads at least once while elements were added; distinct by the digest of its event log', [SCHED, CONSOLE]),
    'C06': R(1500, 'a run counts if at least one write returned normally and its bytes were judged; distinct by the digest of its event log', [FILES, CONSOLE, CLOCK],
             ['preferred encoding and newline convention are those the simulated open() resolves its defaults to']),
    'C07': R(4000, 'a run counts if at least one fault or kill hit a write; distinct by the digest of its event log', [FILES, CRASH, CONSOLE, CLOCK],
             ['bytes accepted by the file layer survive a kill in order (no reordering below a single file; the library never syncs and does not promise power-loss durability)']),
    'C08': R(2000, 'a run counts if the document was emitted at least twice; distinct by the digest of its event log', [SCHED, CLOCK, FILES, CONSOLE, 'interrupts: KeyboardInterrupt/MemoryError raised at a chosen source line of the emission']),
    'C09': R(1000, 'a run counts if the scheduler switched threads at least once; distinct by the digest of its event log', [SCHED, FILES, CLOCK, CONSOLE],
             ['each program is also run alone in a fresh simulated process: that run is the reference']),
    'C10': R(2500, 'a run counts if an adjustment failed or was repeated; distinct by the digest of its event log', [CONSOLE, KERNEL, CLOCK],
             ['the reference is the real library adjusting the same finished network once, without faults, in a fresh simulated process']),
    'C11': R(6000, 'a run counts if the network has at least two roads; distinct by the digest of its event log', [CONSOLE, KERNEL],
             ['step budget: a polynomial in the number of roads, pieces and lanes, counted in executed source lines']),
    'C12': R(5000, 'a run counts if the viewer helper was called at least once; distinct by the digest of its event log', [FILES, LAUNCH, CRASH, CONSOLE, CLOCK, 'platform (os.name): simulated']),
    'C13': R(3500, 'a run counts if at least one call was rejected; distinct by the digest of its event log', [CONSOLE, CLOCK],
             ['the reference is the same program without its rejected calls']),
    'C14': R(6000, 'a run counts if lanes were added, in sections or through linkers; distinct by the digest of its event log', [CONSOLE, KERNEL]),
    'C15': R(40, 'a run counts if at least one file was written in every interpreter of the run; distinct by the digest of the files and results', [FILES, CONSOLE, CLOCK],
             ['interpreters are real, fresh processes (PyPy and CPython); the variants of one run differ in hash seed, locale, encoding, working directory, time zone and random state']),
    'C16': R(5000, 'a run counts if a piece was queried at least twice; distinct by the digest of its event log', [SCHED, KERNEL],
             ['the reference answers come from a fresh piece that is asked once']),
    'C17': R(5000, 'a run counts if at least one roadside call was made on an adjusted road; distinct by the digest of its event log', [CONSOLE, KERNEL]),
    'C18': R(3500, 'a run counts if a document with at least one added element was judged; distinct by the digest of its event log', [CONSOLE, KERNEL, FILES, CLOCK]),
}
