"""Which check decides which property."""
import gw, ids, idread, codec, events, store, client, clipool, clisend
CHECKS, TECHNIQUE, NOTE = {}, {}, {}

def add(props, f, technique, note):
    for p in props:
        CHECKS[p], TECHNIQUE[p], NOTE[p] = f, technique, note

add(gw.FAMILIES, gw.run,
    'TLA+ specification (Gateway.tla) checked with TLC; traces of the real server validated against it',
    'TLC explores the gateway specification exhaustively on small instances; the real server code is driven through its '
    'gnet event interface in virtual time with scenarios generated from the specification and by seeded families, and every '
    'recorded trace must be a behaviour of the specification. Assumes gnet\'s per-connection event ordering (stood in for by '
    'the driver) and that the explored scenarios are representative.')

add(ids.KIND, ids.run,
    'TLA+ specification (Ids.tla; algorithms in IdsAlgo.tla checked with TLC); values returned by the real generators validated against it',
    'TLC explores the generators\' algorithms with concurrent callers and a moving clock (and shows that they fail without mutex or clock '
    'protection); the real generators are driven with behaviours of that model and seeded scripts under a controlled clock, and everything they '
    'return must be allowed by Ids.tla. Real thread interleavings are sampled.')

add(['C36'], idread.run,
    'TLA+ specification (IdForm.tla) checked with TLC (IdFormMC); what the real generators, readers and writers of identifiers said validated against it',
    'TLC checks that identifiers at the boundary values of their fields can be read back and are ordered by time (and that one bit moved breaks that) and generates '
    'such identifiers; the real code reads those and seeded ones, draws under a controlled clock, and writes numbers and times, and everything it says must be '
    'what IdForm.tla says. Inputs are sampled.')

add(list(codec.PROTO) + ['C17', 'C18', 'C19', 'C35'], codec.run,
    'TLA+ specification (Codec.tla) checked with TLC (CodecMC, CodecText); results of the real encoders, decoders and constructors validated against it',
    'TLC checks the packet specification on itself (every field of every packet at its boundary values; all splits up to a length; all short scripts of '
    'edits of optional-parameter lists) and generates packets and scripts from it; the real decoders get those, cut and damaged versions of them and random '
    'octets, the real constructors get seeded accounts, options and texts, and everything they return must be what Codec.tla says. Inputs are sampled.')

add(['C25'], events.run,
    'TLA+ specification (Events.tla) checked with TLC (EventsMC); histories recorded from the real registry validated against it',
    'TLC explores concurrent callers of the registry exhaustively on small instances (and shows that check-then-store and stale handlers break it) and generates '
    'call sequences; the real registry runs those, seeded sequences, handlers that use the registry, and concurrent callers, and every recorded history must be '
    'a behaviour of Events.tla. Real interleavings are sampled.')

add(['C26'], store.run,
    'TLA+ specification (Store.tla) checked with TLC (StoreMC); histories recorded from the real store validated against it',
    'TLC explores directory changes, loads and lookups on small directories (and shows that loading piece by piece or merging breaks them) and generates '
    'histories; the real store runs those and seeded ones, with lookups stopped in the middle of a load, concurrent lookups and the periodic reload, and every '
    'answer must be allowed by Store.tla. Only the file store is covered (no MongoDB here).')

add(['C27', 'C30', 'C31', 'C34'], client.run,
    'TLA+ specification (Client.tla) checked with TLC (ClientMC); what real client sessions did validated against it',
    'TLC explores one client session (all segmentations of small streams, closes, sends and disconnects; shows that reading by segments, answering answers, '
    'handling twice and writing after the close break it) and generates behaviours; the real session runs those, seeded streams, login answers and operations of '
    'several threads in bubbles of virtual time, and everything it writes and returns must be a behaviour of Client.tla. Real interleavings are sampled.')

add(clipool.FAMILIES, clipool.run,
    'TLA+ specification (ClientPool.tla) checked with TLC (ResultsMC, PoolMC, BeatMC); what the real client did validated against it',
    'TLC explores the client\'s result tables and its pool with concurrent gateway and clock on small instances (and shows that registering after the write, losing early '
    'reports, handing over twice and connecting after the shutdown break them) and generates schedules; the real client is driven through its API in virtual time with '
    'gateways played by the driver, and everything it sends, returns, hands over, opens and closes must be a behaviour of ClientPool.tla. Inputs and interleavings are sampled.')

add(['C38'], clisend.run,
    'TLA+ specification (Codec.tla) checked with TLC (CodecText); octets the real client put on its connections validated against it',
    'TLC checks the specification of texts and parts on itself; the real client is driven through Send and SendN in virtual time with seeded accounts, texts, options (also '
    'shared between calls) and callers in several threads; the octets on every connection - logins and submits - must be those Codec.tla allows for what was asked, '
    'nothing more and nothing less. Inputs and interleavings are sampled.')
