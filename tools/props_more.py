RCTRUST = ('Trusted: the line-tree model and the simulated device in vp/ios.py '
           'and vp/iosdev.py. Search, not proof; domain limits (duplicate '
           'sibling lines, special sections) in DESIGN.md.')


def more(prop, v):
    RC = v['RC']
    MO = v['MO']
    models(prop, MO)
    device(prop, v)
    prop('P20', 'A running-config difference is all that differs, only that',
         'The difference of two running-config texts is false for texts that '
         'differ only in spelling (indentation, comments, headers, exit '
         'lines) or in the order among each other of neighbouring commands '
         'whose order has no meaning. '
         'Otherwise its marked lines lead from the first config to the '
         'second, lines that moved are shown with the lines they cross, and '
         'no line is marked that is in both at the same place. The reverse '
         'difference obeys the same laws the other way.',
         ['inputs'],
         'all pairs of running-config texts made of nested commands',
         'tests compare about forty sample pairs with expected text; the '
         'guarantee is over every pair, nesting and order',
         [RC], [('RunningConfigDiff.get_diff', RC),
                ('handle_orderless', RC), ('ListDiff.compare', RC)],
         'Generated line trees, edited and re-rendered; a reference patch '
         'interpreter replays the marked lines. ' + RCTRUST,
         'property-based testing: patch round trip and metamorphic relation',
         ['RunningConfigDiff.diff', 'str(RunningConfigDiff)'])
    prop('P21', 'CLI of a running-config difference leads to the other config',
         'The command lines produced from a running-config difference, typed '
         'into a device that has the first config, are accepted and leave the '
         'second one; the reverse lines lead back. Nothing that is in both '
         'configs is removed, commands that overwrite are not negated first, '
         'and removals come in the reverse order of the config.',
         ['inputs', 'histories'],
         'all pairs of running-configs of a simulated device',
         'tests compare command text on samples; none executes the commands',
         [RC], [('RunningConfigDiff.get_cli', RC), ('list2cli', RC),
                ('remove_unnecessary_negative_commands', RC)],
         'Commands are executed on a simulated line-oriented device. ' +
         RCTRUST,
         'property-based testing: execution by a simulated device',
         ['RunningConfigDiff.cli', 'RunningConfigDiff.cli_reverse'])


MTRUST = ('Trusted: the schema trees in vp/ and their spelling in YANG '
          '(vp/yangtext.py), pyang, lxml. Search, not proof.')


def models(prop, MO):
    prop('P14', 'A compiled model describes exactly what the YANG files say',
         'Compiling a module from a folder of YANG files gives a tree with '
         'exactly the data nodes, choices, cases, RPCs '
         'and notifications that the module, its submodules and '
         'the modules that augment or deviate it define, each with its '
         'namespace, kind, access, keys, presence, ordering, default, '
         'mandatory, status, features, type and enumerated values. The '
         'result does not depend on how the YANG text spells it: groupings, '
         'refinements, deviations, typedefs, leafrefs, submodules, import '
         'prefixes, white space. The printed tree shows the same nodes. A '
         'submodule is refused with ValueError.',
         ['inputs'],
         'all sets of valid YANG modules',
         'tests compile about ten fixed vendor modules and look at single '
         'nodes; every spelling of every construct must give the same tree',
         [MO], [('ModelCompiler.compile', MO), ('ModelCompiler.depict_a_schema_node',
                MO), ('Model.__str__', MO)],
         'Random schema trees are written as YANG in random spellings and '
         'compared with the compiled tree. ' + MTRUST,
         'property-based testing: reference model of compiled schemas',
         ['Model.tree', 'str(Model)'])
    prop('P15', 'Compilation does not depend on history, caches or order',
         'The compiled model of a module is the same in whatever order '
         'modules are compiled, however often, by one compiler or several, '
         'in any process, and whether it comes from the YANG files or from '
         'what an earlier run left in the folder, also when that run was '
         'interrupted while writing. Files in the folder that are not YANG, '
         'or cannot be read as YANG, do not change the models of the others.',
         ['inputs', 'histories', 'crash_points'],
         'all folders of YANG modules, all orders of compilations, all '
         'points where a cache was cut or lost',
         'tests compile once in one order, with intact or absent caches',
         [MO], [('ModelCompiler.build_dependencies', MO),
                ('ModelCompiler._read_from_cache', MO),
                ('ModelCompiler._write_to_cache', MO)],
         'Histories of compilations with cut, lost and foreign files, '
         'compared with a fresh compilation. ' + MTRUST,
         'property-based testing: metamorphic histories with fault injection',
         ['ModelCompiler.compile', 'ModelCompiler.dependencies'])
    prop('P16', 'A model difference marks exactly what differs',
         'The difference of two versions of a model is false when they are '
         'the same. Otherwise nodes only in the second are marked as added, '
         'nodes only in the first as deleted, and nodes in both that differ '
         'in an attribute as modified, and no others; the printed tree has '
         'those and the nodes that lead to them. The added, deleted and '
         'modified views show just their kind and are None when there is '
         'nothing. The reverse difference swaps added and deleted. The '
         'models are not changed.',
         ['inputs'],
         'all pairs of versions of a model whose common nodes are of the '
         'same kind',
         'tests compare one pair of vendor models',
         [MO], [('ModelDiff.compare_nodes', MO), ('ModelDiff.trim', MO),
                ('ModelDiff.__str__', MO)],
         'Random edits of random schemas; the expected marks come from the '
         'schema trees. ' + MTRUST,
         'property-based testing: reference difference of schema trees',
         ['str(ModelDiff)', 'ModelDiff.added', 'ModelDiff.deleted',
          'ModelDiff.modified'])


def device(prop, v):
    C, M, MO, CO, I = v['C'], v['M'], v['MO'], v['CO'], v['I']
    D = v['DOMAIN']
    N, C = v['N'], v['C']
    prop('P13', 'Data, schema nodes, paths and statements lead to each other',
         'For every node of a config, the device finds the one schema node '
         'and the model that define it, also below choices, cases and '
         'augmentations. Its XPath, in each notation, has the prefixes that '
         'notation needs, and evaluated on the config it addresses exactly '
         'that node; without instance it addresses all entries of the list '
         'or leaf-list. The XPath of a schema node addresses exactly it. '
         'Statements found for a node are those that define it. The defaults '
         'in use below a schema node are those of YANG.',
         ['inputs'],
         'all schemas, all valid configs, all nodes in them',
         'tests ask for about ten nodes of vendor models',
         [M, CO], [('ModelDevice.get_schema_node', M),
                   ('Composer.get_xpath', CO),
                   ('ModelDevice.get_statement', M),
                   ('ModelDevice.default_in_use', M)],
         'Generated configs; expected schema nodes and paths come from the '
         'schema trees, and paths are evaluated. ' + D,
         'property-based testing: reference model and round trip of paths',
         ['ModelDevice.get_schema_node', 'ModelDevice.get_xpath',
          'ModelDevice.get_statement', 'Config.xpath', 'Config.roots'])
    prop('P17', 'Configs of two devices combine only if their models agree',
         'Configs of different devices are compared, subtracted and added '
         'like configs of one device when the models they use are the same '
         'on both. When a model they use differs in nodes, prefix or '
         'namespace, or is not loaded on one device, calculating or applying '
         'a difference raises ModelIncompatible or ModelMissing; differences '
         'in other models do not matter.',
         ['inputs', 'configurations'],
         'all pairs of devices with versions of the same models, all configs',
         'tests use one device; two have one pair of incompatible devices',
         [C, MO], [('ConfigCompatibility.models_compatible', C),
                   ('ConfigCompatibility.namespaces_compatible', C),
                   ('ConfigDelta.__init__', C)],
         'Pairs of devices with edited schemas; the verdict comes from the '
         'schema trees. ' + D,
         'property-based testing: differential check against one device',
         ['Config + Config', 'Config - Config', 'Config + ConfigDelta'])
    prop('P18', 'Downloads are complete, or are known to be incomplete',
         'scan_models asks the device for the models it announces (by '
         'NETCONF monitoring, YANG library or hello) and for everything they '
         'import or include, and stores what the device delivers, verbatim, '
         'and nothing else. Modules that cannot be delivered or read do not '
         'affect the others. With check, a folder whose download was '
         'completed with the same capabilities is not touched, and one whose '
         'download was interrupted or lost its connection, or was made with '
         'other capabilities, is downloaded again. With ignore nothing is requested or changed.',
         ['inputs', 'histories', 'crash_points', 'schedules'],
         'all sets of modules, faults, interruptions and sequences of scans',
         'tests replay one download from a canned device without faults',
         [MO, M], [('ModelDownloader.download_all', MO),
                   ('ModelDownloader.download', MO),
                   ('ModelDevice.models_loadable', M),
                   ('ModelDevice.scan_models', M)],
         'Histories of scans of a simulated device with faults; scans are '
         'killed in child processes at file operations and requests. '
         'Trusted: vp/device.py, ncclient, pyang. Search, not proof.',
         'property-based testing: stateful model with crash and fault '
         'injection',
         ['ModelDevice.scan_models', 'ModelDevice.models_loadable'])
    prop('P19', 'The device receives what was meant and replies are readable',
         'Sending a difference (as delta, element or text) to the device '
         'that has the source leaves the destination there, which can be '
         'read back; the reverse difference leads back. Any XML given to '
         'edit-config is received with the same names, attributes, text and '
         'prefixes in scope. The target defaults to the candidate, or to '
         'running where only that can be written. Requests by model carry a '
         'filter with exactly the readable (for get-config: writable) roots '
         'of the models, and are refused when a model is not loaded. '
         'The other options of a request are sent as given, and operations '
         'that do not exist are refused with ValueError. '
         'Prefixes of a reply or notification name all its namespaces, '
         'uniquely.',
         ['inputs', 'configurations'],
         'all schemas, config pairs, options, XML contents, capabilities',
         'tests replace the transport by canned replies and look at few '
         'requests',
         [M, I], [('ModelDevice.execute', M), ('_append', I),
                  ('ModelDevice.take_notification', M),
                  ('ModelDevice._get_ns', M)],
         'A simulated NETCONF server receives the text that ncclient sends. '
         + D,
         'property-based testing: end-to-end round trip through a simulated '
         'server',
         ['ModelDevice.edit_config', 'ModelDevice.get_config',
          'ModelDevice.get', 'RPCReply.xpath', 'RPCReply.ns'])
    prop('P23', 'A device goes by the models that were loaded last',
         'After any sequence of scanning folders, loading models by name or '
         'from compiled files, and using configs in between, a device has '
         'exactly the models that were loaded, their roots, and the '
         'namespaces of the folder scanned last; every config node is '
         'resolved in the version of its model that was loaded last, and a '
         'config of a model that is not loaded is refused with ModelMissing. '
         'A load that fails changes nothing, and no load changes a config.',
         ['inputs', 'histories'],
         'all sequences of scans, loads and uses, all versions of models',
         'tests load each model once',
         [M, MO], [('ModelDevice.load_model', M),
                   ('ModelDevice.scan_models', M),
                   ('ModelDevice.get_schema_node', M),
                   ('ModelDevice.namespaces', M)],
         'Random sequences on one device; three versions of random models; '
         'the reference is the schema of the version loaded last. ' + D,
         'property-based testing: stateful, schema description as oracle',
         ['ModelDevice.load_model', 'ModelDevice.roots',
          'ModelDevice.namespaces', 'ModelDevice.models_loaded'])
    prop('P24', 'The options of a delta decide its form',
         'A delta mentions only what differs (and the entries of user-ordered '
         'lists next to it): what it deletes is in the source and not in the '
         'destination, what it creates is in the destination and not in the '
         'source, what it changes has another value. Created nodes carry the '
         'preferred create operation (non-presence containers pass create on '
         'to their children), deleted nodes the preferred delete operation, '
         'changed leaves and the parents of changed leaf-lists the preferred '
         'replace operation. With diff_type replace, everything that differs '
         'at level replace_depth is replaced as a whole and nothing deeper '
         'has an operation; minimum-replace only adds marks, at the nodes of '
         'level replace_depth or those that replace_xpath selects. Insert '
         'attributes are only at user-ordered entries. Other values of these '
         'options are refused with ValueError or TypeError.',
         ['inputs', 'configurations'],
         'all schemas, all pairs of valid configs, all delta options',
         'tests compare the text of a few deltas with expected text',
         [N, C], [('ConfigDelta.nc', C), ('node_sub', N),
                  ('get_config_replace', N),
                  ('add_attribute_at_depth/add_attribute_by_xpath', N),
                  ('set_create_operation/set_delete_operation', N)],
         'Every element of the delta is compared with both configs in the '
         'reference data model. ' + D,
         'property-based testing: invariants of the output against a '
         'reference model',
         ['ConfigDelta.nc'])
    prop('P22', 'Names convert between notations without loss',
         'A name converted between notations (with prefix, namespace or '
         'module name, with or without omission) denotes the same node: it '
         'has the prefix, namespace or module name of its module, omitted '
         'only where the target notation allows and the default is the same; '
         'converting back gives the name one began with. Unknown or missing '
         'namespaces are rejected with ValueError. A model converts the names '
         'it has between its prefixes and namespaces in the same way.',
         ['inputs'],
         'all names, defaults and pairs of notations, all sets of modules',
         'tests convert a few names in one direction',
         [M, CO], [('ModelDevice.convert_tag', M),
                   ('ModelDevice.convert_ns', M), ('Tag', CO)],
         'Generated names against a reference conversion. ' + D,
         'property-based testing: reference conversion and round trip',
         ['ModelDevice.convert_tag', 'ModelDevice.convert_ns'])
