"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, note,
         technique, observe=()):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=None),
        _note=note, _technique=technique))


C = 'src/ncdiff/config.py'
N = 'src/ncdiff/netconf.py'
CA = 'src/ncdiff/calculator.py'
M = 'src/ncdiff/manager.py'
MO = 'src/ncdiff/model.py'
R = 'src/ncdiff/ref.py'
CO = 'src/ncdiff/composer.py'
I = 'src/ncdiff/__init__.py'
RC = 'src/ncdiff/runningconfig.py'

DOMAIN = ('Trusted: the reference model of YANG data and of <edit-config> in '
          'vp/ (RFC 6241, RFC 7950), lxml, pyang, ncclient. Search, not '
          'proof: bounded number of cases over one hand-made and many random '
          'schemas (domain limits in DESIGN.md).')

prop('P01', 'A delta added to its source gives its destination',
     'For any two configurations of the same models, the difference of the '
     'second and the first, added to the first, equals the second, both by '
     'content (including the order of entries the user orders) and by the '
     'comparison operators. This holds for every documented choice of '
     'preferred create, replace and delete operations, of diff type and of '
     'replace depth.',
     ['inputs', 'configurations'],
     'all schemas, all pairs of valid configs, all delta options',
     'the tests compare about a hundred hand-written pairs on a few models; '
     'the guarantee is over every pair of configs, every schema and every '
     'option combination',
     [N, C, CA], [('NetconfCalculator.sub', N + ' node_sub'),
                  ('NetconfCalculator.add', N + ' node_add'),
                  ('Config.__add__', C)],
     'Random search over schemas, config pairs and options with a reference '
     'data model as oracle. ' + DOMAIN,
     'property-based testing: round trip against a reference data model',
     ['Config + ConfigDelta'])

prop('P02', 'A server accepts a delta and ends in the destination',
     'The edit-config XML of a delta, executed by an RFC 6241/7950 conformant '
     'server that holds the source configuration, is accepted without error '
     'and leaves exactly the destination configuration. It contains no '
     'operation other than those the caller preferred.',
     ['inputs', 'configurations'],
     'all schemas, all pairs of valid configs, all delta options',
     'the tests compare delta text with expected text on samples; no test '
     'executes the delta by an independent edit-config engine',
     [N], [('ConfigDelta.nc', C), ('node_sub', N),
           ('set_create_operation/set_delete_operation', N)],
     'Deltas are executed by an independent strict edit-config engine '
     '(vp/server.py). ' + DOMAIN,
     'property-based testing: differential execution by a reference server',
     ['ConfigDelta.nc'])

prop('P03', 'Adding an edit-config does what a NETCONF server would do',
     'Adding edit-config content (any mixture of merge, create, replace, '
     'delete and remove, and of insertion positions) to a configuration gives '
     'the configuration a conformant server would have after that edit. Edits '
     'that such a server rejects (creating what exists, deleting what does '
     'not, unknown anchors) raise a config or delta error.',
     ['inputs'],
     'all schemas, all valid configs, all edit-config contents over them',
     'the tests apply a handful of edits; operations nest and interact (order '
     'of siblings, replaced ancestors, choices), which needs a reference '
     'engine to judge',
     [N], [('node_add and _node_add_*', N),
           ('ConfigDelta(delta=...)', C)],
     'Generated edits run through the library and a reference engine, results '
     'and rejections compared. ' + DOMAIN,
     'property-based testing: differential against a reference edit engine',
     ['Config + Element', 'ConfigDelta.config_dst'])

prop('P04', 'Comparison operators are the containment order of content',
     'For configurations a and b, a <= b holds exactly when all content of a '
     'is in b (entries ordered by the user in the same order), == is '
     'containment both ways, <, >, >= and != are consistent with these, and '
     'a configuration or delta is false exactly when it is empty. '
     'Comparing with anything that is not a configuration raises '
     'TypeError.',
     ['inputs'],
     'all schemas, all pairs of valid configs in any XML spelling',
     'order laws quantify over all pairs of configs; the tests sample a few',
     [CA, C], [('BaseCalculator.le/lt/ge/gt/eq/ne', CA), ('_node_le', CA)],
     'All six operators and truth values are compared with a reference '
     'containment order. ' + DOMAIN,
     'property-based testing: reference order as oracle',
     ['Config.__le__ and friends'])

prop('P05', 'Delta algebra: undo, chaining, re-reading, neutral elements',
     'For configurations a, b, c: b minus (b - a) is a, negating a delta '
     'twice restores it, deltas chain from a over b to c, a delta written as '
     'XML and read back has the same effect, the empty configuration is '
     'neutral for addition, and adding a configuration to itself changes '
     'nothing.',
     ['inputs'],
     'all schemas, all triples of valid configs, all delta options',
     'algebraic laws over triples of configs cannot be settled by samples',
     [C, N], [('ConfigDelta.__neg__/__add__', C), ('Config.__add__/__sub__',
                                                   C)],
     'Laws checked on generated triples with the reference model as judge. ' +
     DOMAIN,
     'property-based testing: algebraic laws', ['Config', 'ConfigDelta'])

prop('P06', 'Operations never change their operands, in any history',
     'After any history of building deltas, adding, subtracting, merging, '
     'comparing, filtering, querying and printing, every earlier '
     'configuration and delta still has the content and the XML it had when '
     'it was made, and every result equals what the reference model gives '
     'for that step.',
     ['histories', 'inputs'],
     'all sequences of operations on shared config and delta objects',
     'the calculators work on copies by convention; aliasing only shows in '
     'particular sequences of operations on shared objects',
     [C, N, CA], [('deepcopy in calculators', CA + ', ' + N),
                  ('Config.filter', C)],
     'Stateful generation: up to 12 operations per history, all objects '
     're-checked after every step. ' + DOMAIN,
     'stateful property-based testing against a reference model',
     ['Config', 'ConfigDelta'])

prop('P07', 'A config depends only on what its XML means',
     'Two XML texts with the same meaning (other prefixes, whitespace, '
     'comments, order of siblings where order has no meaning, explicit empty '
     'non-presence containers, RPC wrapper, or given as text, element or '
     'reply) give equal configurations with a false difference. Obsolete '
     'nodes, and deprecated ones on request, are dropped; writing a '
     'configuration and reading it back gives an equal one.',
     ['inputs'],
     'all schemas, all configs, all pairs of equivalent spellings',
     'the space of equivalent spellings is not sampled by the tests, which '
     'use one spelling per config',
     [N, C, CA, R], [('NetconfParser', N), ('_validate_node', C),
                     ('IdentityRef, InstanceIdentifier', R)],
     'Metamorphic: two renderings of one generated tree. ' + DOMAIN,
     'property-based testing: metamorphic relation and round trip',
     ['Config(...)'])

prop('P08', 'Only XML that fits the models is accepted as a config',
     'A configuration that contains a node unknown to the loaded models at '
     'its place, a list entry without one of its keys, an unknown root or '
     'namespace, or an edit-config attribute is rejected with an error when '
     'it is made. A valid one is accepted. A configuration that has the same '
     'node twice (entry, value, container, leaf or key) is rejected with a '
     'config error at the latest when it is compared or added. Arguments '
     'and operands of other types are refused with TypeError.',
     ['inputs'],
     'all schemas, all valid configs, one defect at any place',
     'the tests reject a few samples; the guarantee is for a defect at any '
     'depth under any kind of node',
     [C, M], [('Config.validate_config', C), ('get_schema_node', M)],
     'Valid generated configs must be accepted, the same with one injected '
     'defect rejected. ' + DOMAIN,
     'property-based testing: defect injection', ['Config(...)'])

prop('P09', 'Filtering keeps exactly what an XPath expression selects',
     'Filtering a configuration by an XPath expression that selects nodes '
     'keeps those nodes with everything below them, their ancestors and the '
     'keys of list entries on the way, and nothing else; the configuration '
     'itself is unchanged. Querying returns exactly the selected nodes.',
     ['inputs'],
     'all schemas, all configs, path expressions with predicates, wildcards '
     'and descendant steps, and unions of them',
     'tests filter with a few expressions on one config',
     [C], [('Config.filter', C), ('_node_filter', C), ('Config.xpath', C)],
     'An independent evaluator of the generated path expressions says what '
     'must be kept. ' + DOMAIN,
     'property-based testing: reference evaluator', ['Config.filter'])

prop('P10', 'A config extracted from a reply holds all configuration, only it',
     'Extracting a configuration from the reply of a get request drops every '
     'read-only node at any depth and keeps everything else, so that it '
     'equals the configuration extracted from a get-config reply of the same '
     'device state.',
     ['inputs'],
     'all schemas with read-only parts, all device states',
     'tests use a few replies on openconfig models',
     [M, MO], [('ModelDevice.extract_config', M),
               ('access attribute', MO + ' ModelCompiler.set_access')],
     'Replies travel through a simulated NETCONF session. ' + DOMAIN,
     'property-based testing: reference filter and metamorphic relation',
     ['ModelDevice.extract_config'])

prop('P11', 'A delta mentions only what differs',
     'In the XML of a delta of the default kind, every node that is not '
     'needed to place another one differs between source and destination: '
     'unchanged leaves and system-ordered entries are absent, what is '
     'deleted is in the source and not in the destination, new nodes carry '
     'exactly the destination content, and equal configurations give a delta '
     'without content apart from entries ordered by the user.',
     ['inputs'],
     'all schemas, all pairs of valid configs',
     'tests compare samples with expected text',
     [N], [('node_sub', N)],
     'The produced XML is walked against both reference trees. ' + DOMAIN,
     'property-based testing: validity predicate over outputs',
     ['ConfigDelta.nc'])

prop('P12', 'Random reordering of a delta is reproducible and harmless',
     'With a random depth set, a delta has the same nodes as without it, '
     'reordered only among siblings at that depth with list keys kept first, '
     'and it still leads a server from source to destination. The same seed '
     'always gives the same order, and a seed is generated when none is '
     'given.',
     ['inputs', 'configurations'],
     'all schemas without user-ordered entries, all pairs of configs, seeds '
     'and depths',
     'tests check one seed on one config',
     [C], [('ConfigDelta.reorder, reorder_children', C)],
     'Deltas with and without reordering compared, and executed by the '
     'reference server. ' + DOMAIN,
     'property-based testing: metamorphic relation and reference server',
     ['ConfigDelta.nc'])

from props_more import more  # noqa: E402
more(prop, dict(C=C, N=N, CA=CA, M=M, MO=MO, R=R, CO=CO, I=I, RC=RC,
                DOMAIN=DOMAIN))


def main():
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            q = {k: v for k, v in p.items() if not k.startswith('_')}
            f.write(json.dumps(q) + '\n')
    man = dict(
        version=1,
        setup_cmd='/opt/venv/bin/python -c "import lxml, ncclient, pyang"',
        checks=[dict(
            property=p['id'],
            quick_cmd='/opt/venv/bin/python run.py %s quick' % p['id'],
            thorough_cmd='/opt/venv/bin/python run.py %s thorough' % p['id'],
            technique=p['_technique'], level='exploration',
            level_note=p['_note']) for p in P],
        not_applicable=[],
        notes='No hooks in /repo. Every check imports /repo/src directly. '
              'Replay: /opt/venv/bin/python run.py PROPERTY --replay FILE')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
