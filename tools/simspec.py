"""What each simulator is built from and what each check runs."""
import glob, os

class Binary:
    def __init__(self, sources, link): self.sources, self.link = sources, link

BASE = ['-std=c++17', '-include', 'list', '-DBUILD_FOR_LINUX', '-D_DEBUG', '-D_GLIBCXX_ASSERTIONS', '-w', '-fno-omit-frame-pointer']
COVER = ['-fsanitize-coverage=trace-pc']               # a callback for every basic block (sim/soak.hpp counts them)
INSTRUMENT = ['-fsanitize=thread', '-D_GLIBCXX_EXTERN_TEMPLATE=0'] # callbacks for every memory access (sim/core/race.hpp, not the ThreadSanitizer runtime); strings and streams compiled here, too
def core(opt, extra_main=(), sizes=False):
    def f(repo, here):
        inc = ['-I%s/include' % repo, '-I%s/include/navigine/navigation-core' % repo, '-I%s/src' % repo, '-I/usr/include/eigen3', '-I%s/sim' % here]
        src = sorted(glob.glob(repo + '/src/**/*.cpp', recursive=True))
        out = [(s, BASE + opt + inc) for s in src]
        noinst = [o for o in opt if o not in INSTRUMENT + COVER]
        out.append((here + '/sim/core/main.cpp', BASE + noinst + ['-O1'] + list(extra_main) + inc))
        out.append((here + '/sim/alloc.cpp', BASE + [o for o in noinst if not o.startswith('-fsanitize')] + ['-O1'] + (['-DSIM_SIZES'] if sizes else []) + inc))
        return out
    return f
ASAN = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined']
BINARIES = {
    'core-soak': Binary(core(['-O1'] + COVER, ['-DSIM_SOAK'], sizes=True), ['-pthread']),
    'core': Binary(core(['-O1']), ['-pthread']),
    'core-asan': Binary(core(ASAN), ['-pthread', '-fsanitize=address,undefined']),
    'core-threads': Binary(core(['-O1'] + INSTRUMENT, ['-DSIM_THREADS']), ['-pthread', '-rdynamic']),
}

CORE_REAL = 'all of /repo/src (navigation client, measurement preprocessing, level estimation, indoor and outdoor estimators, fusion, smoothing, sensor fusion, map classes), compiled from the working tree'
CORE_STUB = 'radio, sensor, satellite and clock inputs (simulated world and transport); operator new/delete (simulated allocator over malloc); clocks, sleeps and randomness of the process (simulated)'
CORE_ASSUME = ['the compiler and the C++ standard library are correct', 'simulated worlds are at most twelve levels with a few dozen transmitters and reference points each', 'comparison of a run with the reference model stops at decisions that are within rounding error of a tie']
STATES = 'distinct discrete states of the reference model: status, level, provider, level counters, buffer sizes, hold flag, filter phases'
def lockstep(pid, rule, q=22, t=600, binary='core', **kw):
    d = dict(parts=[dict(binary=binary, profile=pid, quick_s=q, thorough_s=t)], rule=rule, real=[CORE_REAL], stub=[CORE_STUB], assume=CORE_ASSUME, states=STATES); d.update(kw); d['parts'] = d.pop('parts2', d['parts']); return d
GEN = 'Each run: a random building, random settings, a walker and seeded faults on every message (loss, duplication, delay, reordering, bursts, outages, corruption, clock jumps, skew, interference, client restarts), delivered to the real client and to an executable reference model in lockstep. '
CHECKS = {
    'C01': lockstep('C01', 'Each run replays one faulty history under several deliveries (other cuts into calls, other heap and stack content, other calling threads, other outside clocks and randomness), the first in a process that has never held a client and the others in processes where clients of other maps with the same names and of other settings ran before and in between, and compares every output and state bit for bit; non-trivial: more than 20 measurements and at least one OK output.'),
    'C02': lockstep('C02', 'Each run: two to four threads and clients on one map (a thread for each client, or each call by whichever thread is free), parked and released one at a time by the seeded scheduler at any load, store, atomic operation, function entry, allocation or lock of the core; every thread must return what it returns alone, the map must not change, and every access is checked against the happens-before order of the run (mutexes, shared locks, atomics, static guards, call_once); non-trivial: the scheduler switched threads inside calls.', binary='core-threads', sig='hash of the sequence of scheduling decisions', states='distinct scheduling signatures'),
    'C03': lockstep('C03', GEN + 'A twin client gets the stream without the stale measurements. Non-trivial: a stale measurement was delivered and a position was computed.'),
    'C04': lockstep('C04', 'Each run: random building and settings and a stream with hostile values (NaN, infinities, huge, negative, denormal), clock jumps in both directions, malformed ids, under AddressSanitizer, UndefinedBehaviorSanitizer and a per-call CPU bound; invariants on every output. Non-trivial: an OK output and a corrupted message.', binary='core-asan', q=25),
    'C05': lockstep('C05', GEN + 'Non-trivial: a no-signal, no-action or dead-reckoning limit fired and a position was computed.'),
    'C06': lockstep('C06', GEN + 'A twin client gets every ineligible message replaced by another ineligible one. Non-trivial: eligible signals were used and at least one was replaced.'),
    'C07': lockstep('C07', GEN + 'Non-trivial: a window average (or a kept window, or a closest-transmitter cut) was used and a position was computed.'),
    'C08': lockstep('C08', GEN + 'Non-trivial: another level was detected.'),
    'C09': lockstep('C09', GEN + 'Non-trivial: the barometer decided whether a level change is followed.'),
    'C10': lockstep('C10', GEN + 'Non-trivial: a zone position was computed.'),
    'C11': lockstep('C11', GEN + 'Non-trivial: a fingerprint position was computed.'),
    'C12': lockstep('C12', GEN + 'Non-trivial: a filter smoothed a position.'),
    'C13': lockstep('C13', GEN + 'Non-trivial: a GPS fix was accepted.'),
    'C14': lockstep('C14', GEN + 'Non-trivial: a position was held.'),
    'C15': lockstep('C15', GEN + 'Non-trivial: a position was projected on the graph or interpolated in time.'),
    'C16': lockstep('C16', GEN + 'Non-trivial: a step was counted.'),
    'C17': lockstep('C17', GEN + 'Non-trivial: an OK output with an orientation.'),
    'C26': lockstep('C26', GEN + 'A twin client has altitude turned off. Non-trivial: an altitude was computed.'),
    'C27': lockstep('C27', 'Each run plays one stretch of a faulty session 64 times over (the clock goes on, pauses of up to two hours, strangers change their addresses, client restarts), then looks at the bytes held and the basic blocks executed per round after 8, 16, 32 and 64 rounds; growth that keeps its pace over every doubling is a violation. Non-trivial: positions were computed in the second half.', binary='core-soak', states='distinct (status, level, provider, order of magnitude of the memory held, steps) combinations'),
    'C18': lockstep('C18', 'Each run: client 0 meets a burst of faults (loss, delay, duplication, corruption, interference, foreign signals, GPS outliers), client 1 never does, then both get the same clean tail of 110 s; two fresh clients see only the tail. From 75 s after the faults client 0 must agree with client 1 (status, level, orientation, and position within a small tolerance). Non-trivial: judged at least once.', q=30, states='distinct recovery situations'),
    'C19': lockstep('C19', 'As C18, with allocations failing inside navigate and creation (single, several, or every one from a random point), under AddressSanitizer; leaks are counted by the simulated allocator. Non-trivial: an allocation failed and the recovery was judged.', parts2=[dict(binary='core', profile='C19', quick_s=20, thorough_s=500), dict(binary='core-asan', profile='C19', quick_s=14, thorough_s=300)], states='distinct recovery situations'),
    'C20': lockstep('C20', 'Each run adds every level of a random map with allocations failing at random (or swept) points, retries, and compares the map with one built without failures after every attempt. Non-trivial: an addition failed.', binary='core-asan', states='distinct map contents after an attempt'),
}

HOW = {
    'C27': 'seeded faulty sessions played for hours of simulated time; live bytes counted by the simulated allocator and basic blocks by compiler probes must stop growing',
    'C01': 'one seeded faulty history under several deliveries, heap and stack contents, compared bit for bit',
    'C02': 'seeded scheduler over real threads that can be parked at every memory access; each thread compared with its solo run, every access checked for a data race',
    'C04': 'seeded hostile input streams and clock jumps under sanitizers with output invariants',
    'C18': 'seeded fault bursts, then bounded-time convergence to a client that saw no faults',
    'C19': 'seeded allocation failures in calls and creation, then bounded-time convergence, leak and memory-error detection',
    'C20': 'seeded allocation failures while a map is built, compared with a map built without failures',
}
for k, v in HOW.items(): CHECKS[k]['how'] = v

def loader(opt):
    f = core(opt)
    def g(repo, here):
        inc = ['-I%s/include' % repo, '-I%s/include/navigine/navigation-core' % repo, '-I%s/src' % repo, '-I/usr/include/eigen3', '-I%s/sim' % here]
        need = ('level_geometry.cpp', 'barriers_geometry_builder.cpp', 'point.cpp', 'vector3d.cpp')
        src = [s for s in f(repo, here) if s[0].startswith(repo) or s[0].endswith('alloc.cpp')]
        src += [(s, BASE + opt + inc) for s in sorted(glob.glob(repo + '/tools/verification/*.cpp')) if ' main(' not in open(s, errors='replace').read()]
        src.append((here + '/sim/loader/main.cpp', BASE + opt + ['-DSIM_HELPERS="%s/tools/verification/helpers.h"' % repo] + inc))
        src.append((here + '/sim/loader/io.cpp', BASE + ['-O1'] + inc))
        return src
    return g
BINARIES['loader'] = Binary(loader(['-O1']), ['-pthread', '-ldl'])
BINARIES['loader-asan'] = Binary(loader(['-O1', '-g1', '-fsanitize=address']), ['-pthread', '-fsanitize=address', '-ldl'])
CHECKS['C21'] = dict(parts=[dict(binary='loader', profile='C21', quick_s=14, thorough_s=400), dict(binary='loader-asan', profile='C21', quick_s=10, thorough_s=300)], how='seeded storage faults (short, interrupted and failing reads, truncation, torn, lost, zeroed, duplicated and flipped bytes) under the real loaders',
    rule='Each run: a random measurement log, settings document or map file, damaged by the simulated storage, read by the real loader through a simulated file whose every read is answered by the trace; the result is compared with a reference reading record by record, under AddressSanitizer. Non-trivial: a read was short, interrupted or failed, or the content was damaged.',
    real=['tools/verification/helpers.cpp (GetNavMessages, CreateSettingsFromJson, ParseGeojson) and the map classes of /repo/src it uses', 'libstdc++ file streams', 'nlohmann::json'], stub=['open and read of the simulated file (link-time interposition)', 'operator new/delete'],
    assume=['nlohmann::json parses one document correctly (the reference reads the same tree its own way)', 'the geometry builder is judged by C20 and C04, not here', 'JSON values of an unexpected but convertible kind (a boolean for a number) are not judged'], states='distinct (file kind, storage behaviour, record class) combinations', sig='hash of the sequence of record classes and storage behaviours')

def standalone(name, folder, opt, inc='include', skip=('test_trilateration.cpp',), soak=False):
    def f(repo, here):
        d = repo + '/standalone_algorithms/' + folder
        inc_ = ['-I%s/%s' % (d, inc), '-I%s/sim' % here]
        out = [(s, BASE + opt + (COVER if soak else []) + inc_) for s in sorted(glob.glob(d + '/src/*.cpp')) if os.path.basename(s) not in skip]
        out.append(('%s/sim/%s/main.cpp' % (here, name), BASE + opt + (['-DSIM_SOAK'] if soak else []) + inc_))
        out.append((here + '/sim/alloc.cpp', BASE + ['-O1'] + (['-DSIM_SIZES'] if soak else [])))
        return out
    return f
for n, folder, inc in (('ped', 'pedometer', 'include'), ('filter', 'complementary_filter', 'include'), ('pos', 'position_estimation', 'include'), ('tri', 'trilateteration', 'src')):
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim', n, 'main.cpp')):
        BINARIES[n] = Binary(standalone(n, folder, ['-O1'], inc), ['-pthread'])
        BINARIES[n + '-soak'] = Binary(standalone(n, folder, ['-O1'], inc, soak=True), ['-pthread'])
        CHECKS['C27']['parts'].append(dict(binary=n + '-soak', profile='C27', quick_s=4, thorough_s=100))
        BINARIES[n + '-asan'] = Binary(standalone(n, folder, ASAN, inc), ['-pthread', '-fsanitize=address,undefined'])
def alone(pid, name, how, rule, real, states, q=(14, 10), t=(400, 200), **kw):
    CHECKS[pid] = dict(parts=[dict(binary=name, profile=pid, quick_s=q[0], thorough_s=t[0]), dict(binary=name + '-asan', profile=pid, quick_s=q[1], thorough_s=t[1])], how=how, rule=rule, real=[real], stub=['sensor and radio inputs (simulated transport)', 'operator new/delete (simulated allocator over malloc)'],
        assume=['the compiler and the C++ standard library are correct', 'comparison of a run with the reference stops at decisions that are within rounding error of a tie'], states=states, **kw)
alone('C22', 'ped', 'seeded loss, duplication, jitter, stalls, corruption, copies and restarts of a sample stream cut into random updates; every step compared with a one-sample-at-a-time detector',
    'Each run: accelerometer samples of a walker over a faulty transport, cut into updates and calculations at random; the real step counter and a reference detector must report the same steps, times and lengths; in a clean tail every step of a steady walk is counted. Non-trivial: a calculation covered several new samples and found a step.',
    'standalone_algorithms/pedometer/src', 'distinct (samples per update, samples pending, window size, steps found) combinations')
alone('C23', 'filter', 'seeded merge of three faulty sensor streams (loss, stalls, duplication, corruption, clock jumps, copies, restarts); every output compared with an independent formulation, then bounded convergence at rest',
    'Each run: accelerometer, magnetometer and gyroscope (and other) samples of a turning device with rates, loss, stalls, corruption and clock jumps of their own; after every sample all angles are compared with an independent formulation and must be finite and in range; after the faults a device at rest must converge to gravity. Non-trivial: three kinds of sensors were delivered.',
    'standalone_algorithms/complementary_filter/src', 'distinct (sensor, gyro seen, finite, attitude octant) combinations')
alone('C24', 'pos', 'seeded loss, duplication, reordering, delay, corruption, clock jumps, copies and restarts of a signal stream cut into random packets; every packet and position compared with a reference',
    'Each run: radio signals of a walker among known and foreign transmitters over a faulty transport, extracted at random moments; every packet (window, averages, closest transmitters) and every position (nearest known transmitter, smoothed track, time stamp) is compared with a reference. Non-trivial: a track was smoothed.',
    'standalone_algorithms/position_estimation/src', 'distinct (window due, transmitters, signals held, track started) combinations')
alone('C25', 'tri', 'seeded rounds of lost, repeated, late, reordered and corrupted measurements with changing beacon lists, copies and restarts on one object; every round compared with a computation from its own input alone',
    'Each run: rounds of measurements over a faulty transport on one long-lived object whose beacon list changes; every result and error code is compared with a computation from that round alone. Non-trivial: at least two positions and two different result codes.',
    'standalone_algorithms/trilateteration/src (without the test program)', 'distinct (result code, beacons heard, beacons known, repeats, earlier successes) combinations')
