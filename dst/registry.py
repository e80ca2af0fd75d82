"""Per property: number of runs, evidence texts, known findings.  No imports from
the code under test here."""
import os

_NET_REAL = ['nbc.node.basenode', 'nbc.node.connection', 'nbc.node', 'nbc.protocol.*', 'nbc.coins',
             'stdlib asyncore event loop (vendored copy of CPython 3.12 test.support.asyncore)']
_NET_STUB = ['TCP/IP, select and socket objects (simulated)', 'clock, sleep', 'OS entropy (seeded)',
             'UPnP gateway', 'remote peers: independent reference implementation', 'stdout']
_NET_ASSUME = ['POSIX/Linux TCP and select semantics as modelled in dst/net.py',
               'CPython semantics of the interpreter running the check; nbc under Python 3.12 with six',
               'the vendored asyncore equals the one nbc runs on']
_W_REAL = ['nbc.wallet.*', 'nbc.util.key/base58/ecc/ecdsa/pyaes', 'io buffering and text layers, json']
_W_STUB = ['file system (page cache, disk, crash, errors) simulated in dst/simfs.py', 'OS entropy (seeded)',
           'passphrase prompt', 'process scheduling']
_W_ASSUME = ['POSIX file semantics with a crash model of lost/torn/reordered unsynced writes and metadata (dst/simfs.py)']
_U_REAL = ['nbc.util.guess_block_height', 'nbc.util.fetch_url_*', 'nbc.util.bootstrap.DNSSeeder',
           'threading.Condition/Event (stdlib) over simulated locks']
_U_STUB = ['thread scheduling (seeded, one thread at a time)', 'urlopen / getaddrinfo answers', 'clock']
_U_ASSUME = ['threads interleave at bytecode boundaries of the code under test and at blocking calls']


def _p(kind, quick, thorough, rule):
    real, stub, ass = {'n': (_NET_REAL, _NET_STUB, _NET_ASSUME), 'w': (_W_REAL, _W_STUB, _W_ASSUME),
                       'u': (_U_REAL, _U_STUB, _U_ASSUME)}[kind]
    return dict(runs=dict(quick=quick, thorough=thorough), rule=rule, real=real, stub=stub, assumptions=ass, known=[])


PROPS = {
    'N01': _p('n', 5000, 120000, 'Cases: random message sequences of all 21 kinds in both directions.'),
    'N03': _p('n', 1800, 40000, 'Cases: 2-8 misbehaving inbound and outbound connections, descriptor exhaustion, accept '
              'errors, raising handlers and user closes beside 1-3 well-behaved connections.'),
    'N04': _p('n', 4000, 80000, 'Cases: node-node and node-peer connections in both directions, peers that announce random '
              'values, twice, late, never, acknowledge early, twice or never.'),
    'N05': _p('n', 1600, 40000, 'Cases: 1-3 connections with silence and traffic patterns around 5 min, 30 min and 3 h, both '
              'directions, mute and stuck peers, node clock steps in both directions, long stalls; up to 7 simulated hours.'),
    'N06': _p('n', 3000, 60000, 'Cases: bursts of pings (repeated nonces, before the handshake, malformed, wrong checksum), unsolicited '
              'pongs and other traffic on 1-4 connections, node-node connections, slow and paused readers, stalls, cuts.'),
    'N07': _p('n', 2400, 50000, 'Cases: 3-30 good, refusing, black-holed, resetting and short-lived addresses, seeds, gossip with own '
              'and duplicate addresses, user add_peer by address, name and own address, inbound connections from a listening port, '
              'removals, punishments, clock steps, stalls.'),
    'N08': _p('n', 2000, 40000, 'Cases: 1-4 IP addresses with several connections in both directions, punishments in handlers and '
              'from the loop spread around the heartbeat, probes at every stage of the ban hour, node clock steps; up to 3 simulated hours.'),
    'N09': _p('n', 1800, 40000, 'Cases: address books from 0 to 4000 learned addresses (IPv4 and IPv6, same IP on many ports, equal '
              'times), handshakes, reconnections, requests at every moment, ended and failed connections, node clock steps.'),
    'N10': _p('n', 3000, 60000, 'Cases: up to 20 connections in both directions whose peers report honest, lying, changing and tied '
              'addresses (IPv4 and IPv6), leave, are removed, announce again; the user sets and clears the address; cuts and stalls.'),
    'N11': _p('n', 2600, 60000, 'Cases: messages of all kinds queued from the loop and from handlers on 1-5 connections, before they '
              'are established and after they ended, slow and paused readers, partial sends, transport that takes nothing, resets, half-closes.'),
    'N12': _p('n', 2400, 50000, 'Cases: 1-8 good and up to 10 dead, resetting, black-holed, unreachable, IPv6, own and duplicate '
              'addresses in book, gossip and seeds (by address and by name); peers that leave and come back, partitions, DNS outages, '
              'descriptor exhaustion, accept errors, clock jumps; then recovery.'),
    'N13': _p('n', 5000, 100000, 'Cases: 1-3 node processes on 1-3 machines behind one gateway, restarted, stopped, failing, killed; '
              'a gateway that is absent, slow, raises or refuses at any call, reboots, and holds mappings of others.'),
    'N14': _p('n', 4400, 40000, 'Cases: pairs of runs with equal decisions and different log levels, level changes and log streams '
              '(working, full, closed, narrow encoding, broken pipe, absent), over all message kinds, damaged frames, refused and '
              'lost connections and raising handlers.'),
    'N15': _p('n', 5600, 60000, 'Cases: up to 5 successive nodes on one address, stopped through the loop hook, closed in the loop and '
              'in handlers, failing, killed, powered off, restarted at once or later with connections winding down; second nodes in the '
              'same and in another process; connection attempts at every moment, slow and silent peers, stalls, cuts, clock steps.'),
    'N16': _p('n', 3000, 60000, 'Cases: startServer, then 1-3 threads of the program sending to, and listing, up to 6 connections that '
              'come, talk, ping and go, and closing the node, a thread switch possible at every bytecode of nbc.node.'),
    'U01': _p('u', 18000, 150000, 'Cases: 1-3 simultaneous polls of up to 8 sources each (and the shipped source list) that answer at once, '
              'slowly, late, never, fail in every way urlopen and read can, or answer malformed data; wall-clock steps; a thread switch '
              'possible at every bytecode of nbc.util.'),
    'U02': _p('u', 18000, 150000, 'Cases: 1-2 seeders with up to 8 lookups that answer at once, late, with nothing, fail or hang, and up to '
              '6 concurrent consumers popping and counting; a thread switch possible at every bytecode of nbc.util.bootstrap.'),
    'W01': _p('w', 8000, 150000, 'Cases: histories of 1-6 saves (single, and two at once from one or two processes) to two paths, relative and '
              'through symbolic links, each cut by a power loss or kill at any file operation (before, part-way, after), or followed by a power '
              'loss later; unsynced data lost, kept or torn by sector, directory changes lost in order or at random.'),
    'W02': _p('w', 12000, 200000, 'Cases: histories of saves, loads and loads of damaged copies, with one or two failures (error, short transfer, interrupt '
              'before or after) at any file operation, persistent failures, full, nearly full and read-only disks, no descriptors, '
              'permissions, bad arguments, wrong passphrases.'),
    'W03': _p('w', 9000, 150000, 'Cases: 2-5 threads in 1-3 processes saving to and loading from one file under several names, preempted at file '
              'operations and bytecodes of nbc.wallet, some of them killed, failing or interrupted, some runs with a power loss; '
              'linearizability of the history against an atomic register.'),
    'W04': _p('w', 9000, 150000, 'Cases: histories of saves with all kinds of passphrases, cut by crashes, kills, errors and interrupts, every file, '
              'name and crash image scanned for every encoding of the secrets; prompts answered blank, right, wrong or interrupted.'),
    'W05': _p('w', 3000, 60000, 'Cases: histories of up to 14 operations on two machines: wallets made from seeds, derived (hardened, public, '
              'watch-only), exported and imported, (de)compressed, saved under faults, copied to the other machine, loaded after kills and '
              'power losses, rederived, used to sign; files written by the released version; machine clocks decades apart.'),
    'W06': _p('w', 2600, 60000, 'Cases: 1-5 clones of one machine state (equal module and pseudo-random state, obtained by executing the same '
              'past again), generating keys and signing with shared and own keys, sequentially and in up to 3 threads, with independent or '
              'half-shared entropy, programs that reseed the generator, failures of the entropy source at any call and extreme values.'),
    'W07': _p('w', 24000, 150000, 'Cases: histories of saves over files of many modes and new files under several umasks, with errors (also of '
              'chmod), interrupts, kills and power losses at any file operation; every file holding wallet content looked at after every operation.'),
    'W08': _p('w', 7000, 60000, 'Cases: 2-4 threads that derive, export, import, sign, verify, encrypt, save, load and convert shared and own wallets, '
              'some operations failing, a thread switch possible at every bytecode of one part of nbc.wallet and nbc.util per run.'),
    'N02': _p('n', 6000, 120000, 'Cases: streams mixing well-formed frames of all kinds with frames damaged in magic, '
              'checksum, command, payload, random bits, foreign protocols and raw garbage.'),
}


def _known():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'KNOWN_FINDINGS.txt')
    try:
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property='):
                    body = line[len('finding: property='):]
                    pid, _, text = body.partition(' ')
                    if pid in PROPS:
                        PROPS[pid]['known'].append(text)
    except IOError:
        pass


_known()
