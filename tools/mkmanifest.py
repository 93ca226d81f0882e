#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties"""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'path-partitioned abstract interpretation of the MIR (widening fixpoints over loops, no execution, no solver)'
SOUND = ('Decides the property for all inputs of the analysed functions, on the MIR of the current source. Trusted: '
         'rustc, the driver that dumps MIR, the abstract domain, and the models of std and third-party functions '
         'listed in the evidence.')
WIT = 'compile-fail witness programs with compiling controls, type-checked against the current source'
WSOUND = ('Witness programs state the bounds, moves and lifetimes of the public API, one per operation; each is refused for '
          'the expected reason and differs from an accepted control only in the violation. Trusted: rustc.')
EFF = ('effect analysis over the call graph of the MIR: every call site reachable from the public functions is classified by its '
       'resolved callee')
CLAIMS = {
    'C01': (AI, SOUND + ' All decoder values reachable from construction are enumerated together with the session state.'),
    'C02': (AI, SOUND),
    'C03': (AI, SOUND),
    'C04': (AI, SOUND + ' serde, serde_json, regex and tungstenite are taken not to panic when called as documented. Client part: one arbitrary frame on an arbitrary receiver state.'),
    'C05': (AI, SOUND + ' Reading side for every text; writing side for every namespace the builder accepts.'),
    'C06': (AI, SOUND + ' Argument sequences up to the depth in the evidence; the builder state after each argument is shown to repeat.'),
    'C07': (AI, SOUND),
    'C08': (AI, SOUND),
    'C09': (AI, SOUND + ' Frame sequences up to the depth in the evidence from a new receiver, and one message on any receiver; the protocol crate is decided for every packet text and any list of attachments.'),
    'C10': (AI, SOUND),
    'C11': (AI, SOUND + ' Argument sequences up to the depth in the evidence.'),
    'C12': (AI, SOUND + ' Compound values are driven for three steps, over any inner serializer.'),
    'C13': (AI, SOUND + ' serde_json follows the serde data model; each forwarding operation is decided for any inner deserializer and any visitor.'),
    'C14': (AI, SOUND + ' JSON values by induction over their depth, typed values for any visitor; serde_json follows the serde data model.'),
    'C15': (AI, SOUND + ' Every element sequence up to the depth in the evidence, and the step after any number of bytes.'),
    'C33': (AI, SOUND + ' Argument sequences up to the depth in the evidence.'),
    'C22': (AI, SOUND + ' One arbitrary frame on an arbitrary receiver state; the functions of the protocol crate are opaque here.'),
    'C23': (AI, SOUND + ' One arbitrary frame on an arbitrary receiver state; the functions of the protocol crate are opaque here.'),
    'C19': (AI, SOUND + ' The socket, the queue and the timer are modelled; loops are decided by a fixpoint over trace automata; the processing of one frame is opaque in the task.'),
    'C24': (AI, SOUND + ' The socket, the queue and the timer are modelled; loops are decided by a fixpoint over trace automata; the processing of one frame is opaque in the task.'),
    'C25': (AI, SOUND + ' The socket, the queue and the timer are modelled; loops are decided by a fixpoint over trace automata; the processing of one frame is opaque in the task.'),
    'C26': (AI, SOUND + ' The socket, the queue and the timer are modelled; loops are decided by a fixpoint over trace automata; the processing of one frame is opaque in the task.'),
    'C27': (AI, SOUND + ' The socket, the queue and the timer are modelled; loops are decided by a fixpoint over trace automata; the processing of one frame is opaque in the task.'),
    'C34': (AI, SOUND + ' The socket, the queue and the timer are modelled; loops are decided by a fixpoint over trace automata; the processing of one frame is opaque in the task.'),
    'C20': (AI, SOUND + ' Every sequence of operations up to the depth in the evidence from a new client, and one operation on any registry whatever, with arbitrary arguments.'),
    'C16': (AI, SOUND + ' Every public method in every order of the builders, one arbitrary event or ack on a new client and on any registry, and every wait of the task, of connecting and of closing.'),
    'C17': (AI, SOUND + ' Every order of the builder methods, on a new client and on any registry.'),
    'C18': (AI, SOUND + ' Ids: one step of every operation from any counter and registry. Acks: histories up to the depth in the evidence, and one operation on any registry. Fewer than 2^62 events per client are assumed.'),
    'C21': (AI, SOUND + ' One or two operations from a new client and from any registry.'),
    'C28': (AI, SOUND + ' The url crate is modelled by its documented behaviour.'),
    'C35': (AI, SOUND + ' Every decoded packet; iterators are stepped from the beginning up to the depth in the evidence.'),
    'C36': (AI, SOUND + ' Ownership of the task handle on every outcome of connecting and closing; the spawner is modelled as documented by futures.'),
    'C37': (AI, SOUND + ' Every order of the builder methods, on a new client, on any registry, and after any close.'),
    'C38': (EFF + '; loops on the control flow graph are shown to await, consume or count', 'Sound for the functions of this workspace as far as '
            'third-party functions other than the listed blocking ones do not block; short waits for the two mutexes are C16. Trusted: rustc, the driver that dumps MIR, the list of effects.'),
    'C39': (EFF + '; types of the statics used are searched for interior mutability', 'Sound for the functions of this workspace as far as '
            'third-party functions other than the listed ones keep no global state. Trusted: rustc, the driver that dumps MIR, the list of effects.'),
    'C51': (AI, SOUND + ' The protocol crate is opaque here (C01, C07, C13, C35 decide what it accepts); every outcome of each of its functions is followed.'),
    'C50': (AI, SOUND + ' The grammar of packets and serde_json are modelled: each text may match or not, each list of arguments be valid or not.'),
    'C49': (AI, SOUND + ' The connector, the handshake, the spawner and the timer are modelled: each may succeed, fail or stay pending.'),
    'C48': (AI, SOUND + ' Sequences are compared by their elements; contents that are opaque (a callback) by identity.'),
    'C47': (AI, SOUND + ' Lists of arguments are followed element by element up to the length in the evidence; that none is left out is decided for any length.'),
    'C46': (AI, SOUND + ' Loops of the task are explored to a fixed point; what is waited for is what was polled and pending when the task gives up control.'),
    'C45': (AI + '; cycles of the call graph', SOUND + ' Loops counted by hand (not over a range or take) are bounded only in that they count (C38).'),
    'C44': (AI, SOUND + ' One arbitrary frame for any receiver and any registry; changes of the registry are decided by what an event or ack arriving afterwards calls.'),
    'C43': (AI, SOUND + ' The deserializer is modelled by the contract of serde_json; the sequence of keys is any sequence, explored to a fixed point.'),
    'C30': (WIT, WSOUND),
    'C31': (WIT + '; signature query over the type-checked program', WSOUND),
    'C32': (WIT, WSOUND),
    'C29': (AI, SOUND + ' Checked for the String and Vec instances the crate converts from.'),
}
exec(open(os.path.join(here, 'tools/claims.py')).read()) if os.path.exists(os.path.join(here, 'tools/claims.py')) else None
NA = {
    'C40': 'equality of a value with the result of reading it back depends on the serde implementations of the '
           'user\'s own type, which no analysis of this source can bound; the parts this source contributes are '
           'claimed as C10, C12, C13, C14 and C15.',
    'C41': 'progress depends on the fairness of the executor, the socket and the select implementation at run time, '
           'which no static argument over this source bounds; that no wait of the task leaves out what should wake it is claimed as C46.',
    'C42': 'the repository does not implement heartbeat timeouts, so there is no construct to analyse.',
}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
ids = [p["id"] for p in props]
checks = [{"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --thorough" % i,
           "technique": CLAIMS[i][0], "level": "other", "level_note": CLAIMS[i][1]} for i in ids if i in CLAIMS]
na = [{"property": i, "reason": NA.get(i, 'not claimed: no check has been built for it yet.')} for i in ids if i not in CLAIMS]
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only. One driver dumps MIR facts of /repo's current source; every check analyses them."},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
