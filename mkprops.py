#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the entries stay uniform)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], hook_needed=hook)))

add('C01', 'Checkpoint files are replaced atomically',
    'At every instant, including after the process dies in the middle of a save, the file under the final name of an iteration checkpoint (eigenstates or density matrix) is either absent, the complete previous version, or the complete new version. A checkpoint that is present under its final name always loads and gives back exactly what some completed save was asked to store.',
    ['crash_points', 'fault_sequences', 'inputs'], 'every file-system operation of every save, with the process dying before, after or in the middle of it, or the operation failing, for any stored contents and any previous version on disk',
    'The tests save and load on a healthy disk; none stops the process inside a save or makes a write, close or rename fail.',
    ['c++/eigen.hpp', 'c++/operators.hpp', 'c++/misc.hpp', 'c++/portabil.hpp'],
    [('write to a temporary file, close, check, rename', 'c++/eigen.hpp DiagInfo::save'), ('same for density matrices', 'c++/operators.hpp DensMatElements::save')],
    ['files in the work directory after a simulated crash'])
add('C02', 'A checkpoint save that fails is reported and leaves the old version',
    'If storing an iteration checkpoint cannot be completed because of an input/output error, the save reports an error to its caller, the previous version of the checkpoint stays loadable, and no temporary file is left behind unless its removal itself failed. A save that returns normally has stored the complete checkpoint.',
    ['fault_sequences', 'inputs'], 'every failing operation (open, write, close, rename; transient, permanent, disk full at any byte) of every save',
    'No test injects an input/output error.',
    ['c++/eigen.hpp', 'c++/operators.hpp'], [('stream state checked after writing and closing, temporary removed on failure', 'c++/eigen.hpp, c++/operators.hpp')], ['return or exception of the save; directory contents'])
add('C03', 'Loading a checkpoint is all or nothing',
    'Loading an iteration checkpoint that is missing, truncated at any byte, followed by extra bytes, replaced by something that is not a checkpoint, or unreadable because of an input/output error reports an error and leaves the caller\'s data exactly as it was. It never returns a partial or altered checkpoint as if it were complete. (Bytes changed in place that leave length and structure intact are beyond what the format can detect and are not claimed.) No damaged file makes the load crash.',
    ['inputs', 'fault_sequences'], 'every truncation length, every appended tail, every failing read, and short reads of any size',
    'Tests load intact files plus a few fixed damaged ones; they do not vary the damage over all positions nor fail reads.',
    ['c++/eigen.hpp', 'c++/operators.hpp', 'c++/misc.hpp'], [('load into a temporary object, validate end of file, then swap', 'c++/eigen.hpp DiagInfo::load, c++/operators.hpp DensMatElements::load')], ['exception of the load; object before and after'])
add('C04', 'Stored iteration data come back bit for bit',
    'Eigenstates and density matrices that were stored during a calculation are read back identical to what was stored, however the operating system splits the transfers, in whatever order iterations are saved, overwritten, removed and loaded. Removing one iteration never touches another one, and loading removes the file only when its caller asks for that.',
    ['histories', 'schedules', 'inputs'], 'any history of saves, overwrites, loads and removals over several iterations and both kinds of data, and any split of reads and writes',
    'Tests use one save followed by one load; they sample neither histories nor partial transfers.',
    ['c++/eigen.hpp', 'c++/operators.hpp', 'c++/workdir.hpp'], [('per-iteration file names in a private work directory', 'c++/workdir.hpp'), ('binary archives', 'c++/eigen.hpp, c++/operators.hpp')], ['values after load compared with a map-based reference model'])
add('C05', 'DONE and exit status 0 mean complete results',
    'When the main program exits with status 0 or leaves its completion marker, every result file that the parameter file asks for exists and is complete and identical to that of an undisturbed run. Any failed, short or impossible read or write of an input, intermediate or result file leads to a non-zero exit without the completion marker.',
    ['fault_sequences', 'crash_points', 'configurations'], 'every file operation of a calculation, failing transiently or permanently, disk full at any byte, or the process dying there',
    'The repository\'s full-program tests need libraries absent in the build and run only on a healthy file system.',
    ['c++/nrg-general.hpp', 'c++/output.hpp', 'c++/outfield.hpp', 'c++/spectrum.hpp', 'c++/matsubara.hpp', 'c++/measurements.hpp', 'c++/read-input.hpp', 'c++/params.hpp', 'c++/algo.hpp'],
    [('marker written as the last action', 'c++/nrg-general.hpp'), ('stream checks after writing results', 'c++/output.hpp and the algorithm classes')], ['exit status, marker file, result files'])
add('C06', 'A calculation can be repeated after any crash',
    'After a calculation was interrupted at any point or failed, running it again in the same directory with working hardware gives exactly the results of a run in a clean directory. While the repeated run is incomplete no completion marker of an earlier run is visible.',
    ['crash_points', 'histories'], 'any crash point of the first run, any number of interrupted runs before the final one',
    'No test interrupts a calculation or runs it twice in one directory.',
    ['c++/nrg-general.hpp', 'c++/workdir.hpp', 'c++/output.hpp', 'c++/params.hpp'], [('outputs truncated on open, private temporary directory per run', 'c++/workdir.hpp, c++/output.hpp')], ['result files and marker after crash and rerun'])
add('C07', 'Distributed diagonalisation gives the serial results',
    'A calculation distributed over any number of processes produces the same energies, spectra and other results as the serial calculation, for every order and timing in which messages are delivered and processes are scheduled.',
    ['schedules', 'configurations', 'inputs'], 'number of processes, message delays, which worker answers first, eager or synchronous sends, missed probes, slow and stalled processes, matrices of every size split into any number of messages',
    'Tests never run the distributed engine: it needs several cooperating processes and every run samples one schedule.',
    ['c++/diag_mpi.hpp', 'c++/nrg-lib.cc', 'c++/nrg.cc', 'c++/mp.hpp', 'c++/params.hpp'], [('task hand-out and collection protocol', 'c++/diag_mpi.hpp'), ('worker loop', 'c++/nrg-lib.cc run_nrg_slave')], ['result files of all schedules against the serial run'])
add('C08', 'Every distributed run ends, on all processes',
    'In a distributed run every process terminates: after success, after a rejected or missing input, and after an error on any process, and then the job as a whole reports failure. No message order, delay or failure of one process leaves the others waiting forever.',
    ['schedules', 'fault_sequences', 'configurations'], 'process counts, message schedules, failing diagonalisation on a worker, failed allocations, missing inputs, death of a process at any communication step',
    'Needs several processes and adverse timing; tests run one process.',
    ['c++/nrg.cc', 'c++/nrg-lib.cc', 'c++/diag_mpi.hpp'], [('start-up status broadcast', 'c++/nrg.cc main'), ('exit messages to workers', 'c++/diag_mpi.hpp destructor'), ('an exception in a task ends the whole job', 'c++/nrg.cc, c++/nrg-lib.cc')], ['exit of every simulated process within a bounded number of steps'])
add('C09', 'Threaded diagonalisation gives the serial results and has no race',
    'With shared-memory parallelism switched on (diagonalisation, Matsubara sums), for every number of threads and every interleaving, the results are those of the serial calculation and no two threads access the same memory without ordering. An error raised in one thread surfaces as an error of the calculation.',
    ['schedules', 'configurations'], 'thread counts, dynamic hand-out orders, preemption between any two memory accesses, failing work items',
    'Application threading is off in the test build, and a test observes one interleaving.',
    ['c++/diag_openmp.hpp', 'c++/core.hpp', 'c++/diag.hpp', 'c++/algo_FDM.hpp', 'c++/algo_FT.hpp'], [('parallel loop over subspaces with a critical section for the results', 'c++/diag_openmp.hpp')], ['results and happens-before order under a simulated scheduler'])
add('C10', 'A resumed calculation gives the results of an uninterrupted one',
    'A calculation started with the option to resume gives exactly the results of an uninterrupted calculation, whatever an interrupted earlier one left behind and at whatever point it was interrupted, also after several interruptions. A missing, damaged or incomplete checkpoint is never used.',
    ['crash_points', 'histories'], 'any crash point of the interrupted run, any number of consecutive interruptions',
    'No test interrupts and resumes a calculation.',
    ['c++/params.hpp', 'c++/core.hpp', 'c++/eigen.hpp', 'c++/workdir.hpp'], [('detection of the last stored iteration', 'c++/params.hpp init_laststored'), ('load instead of diagonalise', 'c++/core.hpp')], ['results after crash and resume'])
add('C11', 'Concurrent calculations never touch each other\'s temporary files',
    'Every calculation keeps its intermediate files in a directory of its own that did not exist before, so calculations sharing one scratch location never read, overwrite or remove each other\'s files whatever their relative timing. On normal completion the directory and everything in it is gone, and nothing outside it and the current directory is created, changed or removed.',
    ['schedules', 'histories', 'fault_sequences'], 'several calculations sharing a scratch location, crashes of earlier ones, name collisions, failing directory creation',
    'Tests run one calculation at a time in its own directory.',
    ['c++/workdir.hpp', 'c++/nrg.cc', 'c++/nrg-lib.cc'], [('unique directory created on start, removed on exit', 'c++/workdir.hpp')], ['every path touched, as seen at the system-call boundary'])
add('C12', 'Results do not depend on clock, memory layout or scratch location',
    'The numerical results of a calculation depend only on its input and parameter files: not on the wall clock (including jumps and stalls), on random numbers handed out by the system, on where the scratch directory lies, on how reads and writes are split, or on the contents of output files left by earlier runs.',
    ['schedules', 'configurations', 'histories'], 'clock values, jumps and stalls, random seeds, scratch paths, transfer splits, left-over files',
    'A test observes one environment.',
    ['c++/time_mem.hpp', 'c++/core.hpp', 'c++/workdir.hpp', 'c++/output.hpp', 'c++/read-input.hpp'], [('time used for reports only', 'c++/time_mem.hpp')], ['result files across simulated environments'])

add('T01', 'A tool that exits with status 0 has written its complete output',
    'If any write, flush, close or creation of a result file or of the result on standard output fails, a post-processing tool exits with non-zero status. Whenever it exits with status 0 its results are complete and identical to those of an undisturbed run.',
    ['fault_sequences', 'inputs'], 'every write-side operation of every tool, failing once or from then on, and a disk that fills up at any byte',
    'Tests run on a healthy disk only.',
    ['tools'], [('open checks and stream checks after writing', 'tools/*')], ['exit status and result files'])
add('T02', 'A tool never mistakes a read error for the end of its input',
    'If reading an input file fails part-way, a tool exits with non-zero status instead of producing results from the part it could read. Whenever it exits with status 0 its results are those of the complete input.',
    ['fault_sequences', 'inputs'], 'every read of every input file of every tool, failing once or from then on',
    'No test injects a read error.',
    ['tools', 'c++/io.hpp', 'c++/basicio.hpp'], [('loops that read until the stream stops being good', 'tools/*')], ['exit status and result files'])
add('T03', 'Tool results do not depend on how transfers are split or interrupted',
    'A tool gives byte-identical results however the operating system splits its reads and writes into pieces, whatever the clock shows, and whatever an earlier, possibly crashed, run left behind under the names of its results.',
    ['schedules', 'histories', 'inputs'], 'splits of every transfer down to one byte, clock values and jumps, left-over result files of any length',
    'Tests see full-size transfers into an empty directory.',
    ['tools'], [('buffered stream input and output', 'tools/*')], ['result files'])
add('T04', 'A truncated or incomplete binary input is rejected',
    'A tool that reads binary data exits with non-zero status when the file ends inside a record or is shorter than it announces. It never produces results from a torn file such as a crashed writer leaves behind.',
    ['inputs', 'crash_points'], 'every binary input of every tool, cut at every length that is not a record boundary',
    'Tests contain a handful of fixed damaged files.',
    ['tools/binavg', 'tools/broaden', 'tools/bw', 'tools/mats', 'tools/specmoments', 'c++/io.hpp'], [('length and stream checks while reading binary rows', 'tools/*')], ['exit status'])
add('T05', 'A tool that runs out of memory fails cleanly',
    'If a memory allocation fails at any point, a tool ends with non-zero status. If it nevertheless exits with status 0, its results are complete and correct.',
    ['fault_sequences'], 'every allocation of a tool failing, alone or from there on',
    'No test fails an allocation.',
    ['tools'], [('exceptions caught in main, non-zero exit', 'tools/*')], ['exit status and result files'])
add('T06', 'The multi-step tool chain survives a crash of any step',
    'When a step of the discretisation and averaging chain crashes at any point, the inputs of that step are unchanged and running the step again gives the same results as if the crash had not happened. A later step that finds only the torn output of a crashed step (no complete output of an earlier run) either rejects it or produces exactly the right result.',
    ['crash_points', 'histories'], 'any crash point in any step, with and without re-running it before the next step',
    'No test crashes a tool.',
    ['tools/adapt', 'tools/nrgchain', 'tools/common', 'tools/matrix', 'tools/instantiate'], [('tables stored by one step and loaded by the next', 'tools/nrgchain/load.h')], ['files after crash, rerun and next step'])
add('T07', 'Unreachable or unreadable inputs are reported, never replaced by defaults',
    'If an input or parameter file named on the command line, or required by the documentation, cannot be opened, a tool exits with non-zero status rather than continuing without it. Existing input files are never modified or removed, whatever fails.',
    ['fault_sequences', 'inputs'], 'every open of every file failing with any errno, and every other fault',
    'Tests cover a missing file for some tools only, and never check that inputs stay unmodified.',
    ['tools', 'c++/basicio.hpp'], [('open checks', 'tools/common/io.hpp, c++/basicio.hpp')], ['exit status and input files'])

NA = [
 ('N01', 'Discretisation and tridiagonalisation reproduce the hybridisation', 'The chain coefficients computed from a hybridisation function reproduce it: the continuum limit averaged over the twist parameter returns the input function, and the zeroth coupling equals its norm.', 'tools/nrgchain'),
 ('N02', 'Kramers-Kronig transform is consistent', 'Transforming the imaginary part of a causal function gives its real part within the integration accuracy, for every admissible mesh.', 'tools/kk'),
 ('N03', 'Hilbert transform agrees with the definition', 'The Hilbert transform of a density of states agrees with its integral definition in the whole upper half plane, including arguments close to the real axis.', 'tools/hilb'),
 ('N04', 'Broadening and averaging conserve spectral weight', 'Broadening with a normalised kernel and averaging over twist parameters conserve the total spectral weight of the raw delta peaks.', 'tools/broaden'),
 ('N05', 'Symmetry-adapted calculations agree with those of lower symmetry', 'The spectrum and all expectation values obtained with a larger symmetry group equal those obtained with any of its subgroups.', 'c++/symmetry'),
 ('N06', 'Spectral sum rules and equal-time expectation values agree', 'The integrated weight of every spectral function equals the expectation value of the corresponding (anti)commutator within the completeness of the kept basis.', 'c++/spectral.hpp'),
 ('N07', 'Matrix expressions are evaluated with ordinary arithmetic rules', 'Every expression in a matrix template evaluates to its usual mathematical value with the given parameters and coefficients.', 'tools/matrix'),
 ('N08', 'Parameter parsing accepts exactly the documented syntax', 'Every documented parameter assignment is honoured exactly and every unknown or malformed one is reported.', 'c++/params.hpp'),
 ('N09', 'Truncation keeps the lowest states and never splits multiplets', 'For every spectrum and every set of truncation parameters the kept states are those of lowest energy up to the gap criterion.', 'c++/truncation.hpp'),
]
for id, t, s, f in NA:
    add(id, t, s, ['inputs'], 'every admissible input', 'Tests compare a few fixed inputs with stored outputs.', [f], [('numerical kernel', f)])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
