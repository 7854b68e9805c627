"""The registry of properties: statement, anchors, and the jobs that decide each.
tools/gen.py writes properties.jsonl and MANIFEST.json from it; tools/vf.py runs the jobs."""
SPECS = {}
NOT_APPLICABLE = []
WHY = 'The suite runs fixed sample policies per check, so it only meets the names and layouts those files happen to contain; '
def cases(n, **kw): return [dict(kw, name='case%d' % i, defs=['CASE=%d' % i]) for i in range(n)]
def sel(ns, **kw): return [dict(kw, name='case%d' % i, defs=['CASE=%d' % i]) for i in ns]
def prop(pid, title, statement, harness, jobs, bounds, outside, files, mech, why=None, over=('inputs',), quant=None, observe=None, state=None, note=None, **kw):
    if isinstance(jobs, int): jobs = cases(jobs)
    assert len(title) <= 80, title
    assert pid not in SPECS
    SPECS[pid] = dict(title=title, statement=statement, harness=harness, jobs=jobs, bounds=bounds, outside=outside,
                      files=files, mech=mech, why=why or WHY + 'the rule has to hold for every name, and for every way names coincide.',
                      over=list(over), quant=quant or bounds, observe=observe or ['finding lines'], state=state or [], note=note, **kw)

NAMES3 = 'every assignment of identifiers of 1-3 characters (letters, digits, _, $ where the lexer allows) to the name positions, so every pattern of coinciding, declared, required and unknown names'
PIPE = 'Names longer than the bound; statement shapes and block nestings other than the ones in the harness; lexing of these names (the token stream comes from the real lexer run on the harness text).'
TE, IF, FC, CH, PF, TR, MP = ['src/%s.c' % x for x in ('te_checks', 'if_checks', 'fc_checks', 'check_hooks', 'parse_functions', 'tree', 'maps')]

prop('W001', 'W-001: undeclared foreign names in a module are reported, exactly',
     'In a te file, a statement gets a W-001 finding exactly if it uses a type, attribute or attribute role that another module declares and that no require of the same kind, earlier in the file at the same or an enclosing level, names. Names that are unknown, roles, or the module\'s own draw no finding, and neither do interface files.',
     'w001.c', 7, 'Per statement kind (access, extended-permission, type/role/range transition, role allow, role types, typeattribute, roleattribute, permissive, interface call, declaration): ' + NAMES3 + '; requires at top level, nested and later in the file.',
     PIPE, [TE, TR, PF, 'src/parse.y'], [('check_no_explicit_declaration', 'src/te_checks.c'), ('is_in_require / is_in_ifdef_require', 'src/tree.c'), ('get_names_in_node', 'src/tree.c')],
     over=('inputs', 'programs'))
prop('W002', 'W-002: names used in an interface but not required are reported, exactly',
     'In an interface or template, a statement gets a W-002 finding exactly if it uses a known type, attribute, role or attribute role (of any module) that no require at any depth before it in the same interface names. Parameters, unknown names and system_r never need a require, requires of another interface never count, and te files draw no W-002 finding.',
     'w002.c', 7, 'Per statement kind: ' + NAMES3 + '; requires before and after the use, nested in ifdef, in blocks of several declarations and names, and in a neighbouring interface.', PIPE,
     [IF, TR, PF, 'src/parse.y'], [('check_name_used_but_not_required_in_if', 'src/if_checks.c'), ('get_names_in_node', 'src/tree.c')], over=('inputs', 'programs'))
prop('W003', 'W-003: required names that nothing later uses are reported, exactly',
     'Each declaration in a require block of an interface or template gets a W-003 finding exactly if no statement after the block, at any depth of the same interface, uses its name. Interfaces whose name ends in _stub, boolean and class requires, and te files are never reported.',
     'w003.c', 6, 'Per statement kind: ' + NAMES3 + '; uses before, after, nested two levels deep, in else branches and in another interface.', PIPE,
     [IF, TR, PF, 'src/parse.y'], [('check_name_required_but_not_used_in_if', 'src/if_checks.c'), ('get_names_required / get_names_in_node', 'src/tree.c')], over=('inputs', 'programs'))
prop('W004', 'W-004: suspicious regular expressions in file contexts are reported, exactly',
     'A file-context path gets a W-004 finding exactly if, outside bracket expressions, it contains a dot that is neither escaped nor followed by a repetition operator, or a * or + that repeats a single unescaped ordinary character. What stands inside brackets, and escaped characters, never cause a finding.',
     'fc.c', sel([0]), 'Every path of up to 10 bytes over the whole alphabet (all 255 non-NUL byte values).', 'Paths longer than 10 bytes.',
     [FC], [('check_file_context_regex', 'src/fc_checks.c')], unwind_files={'fc_checks.c': 13},
     why=WHY + 'bracket, escape and repetition characters interact in ways that need every short path, not a few samples.')
prop('W005', 'W-005: calls into optional modules outside optional_policy are reported, exactly',
     'An interface call gets a W-005 finding exactly if the called interface belongs to another module, that module is listed in modules.conf as something other than base, and the call does not stand inside the first branch of an optional_policy at any depth. Other conditional blocks and the else branch of an optional_policy do not excuse the call.',
     'w005.c', 3, NAMES3 + '; the owners of two interfaces (own module, listed module, unlisted module) and the listed module\'s setting (base, module, off) are symbolic, and so is the kind of each of three nested enclosing blocks.', PIPE,
     [TE, MP, TR], [('check_module_if_call_in_optional', 'src/te_checks.c'), ('look_up_in_ifs_map / look_up_in_mods_map', 'src/maps.c')], over=('inputs', 'configurations'))
prop('W006', 'W-006 and W-007: empty and space-separated call arguments are reported, exactly',
     'An interface call with no argument, and no other call, gets a W-006 finding. A call gets a W-007 finding exactly if one argument consists of several words separated by space alone, where a following exclusion counts only after a declared identifier; braces, quotes, commas and ranges written with a spaced dash are no such separation.',
     'w006.c', 4, 'Nine call shapes; ' + NAMES3 + '; five declared names of different kinds.', PIPE, [TE, 'src/string_list.c', 'src/parse.y'],
     [('check_empty_if_call_arg', 'src/te_checks.c'), ('check_space_if_call_arg', 'src/te_checks.c')])
prop('W008', 'W-008: risky permissions in allow rules are reported, exactly',
     'An allow rule gets a W-008 finding exactly if its permission field is the wildcard or a complement. Complemented or wildcard sources, targets and classes, other access rules, and extended-permission rules are not reported.',
     'w008.c', 2, '15 rule shapes (wildcard, complement of one and of several, plain, in each field and rule kind) with all names of up to 3 characters.', PIPE, [TE, 'src/parse.y'],
     [('check_risky_allow_perm', 'src/te_checks.c')], over=('inputs', 'programs'))
prop('W009', 'W-009: a module header whose name is not the file name is reported, exactly',
     'A module header gets a W-009 finding exactly if the declared module name differs from the file name with its last extension removed. Nothing else in the file is reported.',
     'w009.c', 2, 'Every module name of 1-5 identifier characters against every file name of 1-8 arbitrary bytes, for both header forms.', 'Longer names.', [TE],
     [('check_module_file_name_mismatch', 'src/te_checks.c')])
prop('W010', 'W-010: calls to unknown interfaces of known modules are reported, exactly',
     'A call gets a W-010 finding exactly if no interface, template or known support macro of that name exists and the part of the name before one of its underscores is a module listed in modules.conf, by its own name or its customary abbreviation. Calls whose prefix is no known module are never reported.',
     'w010.c', 3, 'Fixed called names with one to three underscores; the names of two listed modules and two known interfaces are symbolic (1-5 characters) or chosen from all abbreviated modules; every abbreviation row is checked.',
     'Called names are a fixed list; names longer than the bound.', [TE, MP], [('check_unknown_interface_call', 'src/te_checks.c'), ('is_optional_macro / prefix handling', 'src/te_checks.c')],
     over=('inputs', 'configurations'), defs=['VF_HOLE=20', 'VF_STRMAX=34'])
prop('W011', 'W-011: interface files requiring foreign declarations are reported, exactly',
     'A name required in an interface file gets a W-011 finding exactly if no declaration of that kind and name belongs to the file\'s own module. Parameters, class requires and roles declared by the kernel module are never reported, and neither are te files.',
     'w011.c', 3, NAMES3 + '; six declared names whose owner (own module, other module, kernel) is symbolic; type, attribute, role, attribute role, boolean requires.', PIPE, [IF, MP],
     [('check_required_declaration_own', 'src/if_checks.c')], over=('inputs', 'configurations'))
prop('C001', 'C-001: the findings are a smallest set that restores the documented order',
     'The statements of a te file that get no C-001 finding are in the order that the configured style prescribes, and no smaller set of findings would do. Two statements are out of order exactly if the style says so: declarations of booleans, attributes and the rest first, then self rules, own rules, and (except in the lax style) calls by layer and module name, build options, conditional and optional blocks. Statements exempted by a disable comment take no part.',
     'c001.c', [dict(name='minimal', defs=['CASE=0', 'EXEMPT=0'], unwind_files={'ordering.c': 7}), dict(name='exempt', defs=['CASE=0', 'EXEMPT=1'], unwind_files={'ordering.c': 7}), dict(name='minimal6', defs=['CASE=0', 'EXEMPT=0', 'NN=6'], unwind_files={'ordering.c': 8}, tier='thorough'), dict(name='calls', defs=['CASE=1'])] + [dict(name='kinds%d' % k, defs=['CASE=2', 'STYLE=%d' % k]) for k in range(3)] + [dict(name='section%d' % k, defs=['CASE=3', 'WHICH=%d' % k]) for k in range(5)],
     'Every assignment of five places (thorough: six) to five statements, one of them possibly exempt; every pair of twelve kinds of statement, with calls to any of nine interfaces (own, related, kernel module, kernel layer, system layer, other, unknown), in all three styles; two sections with domain names from a list.',
     'Sections with several domains, templates, transform and role interfaces, nested blocks; the wording of the reason; the order is decided pair by pair and the smallest set for any order, not both at once.', ['src/ordering.c'],
     [('calculate_longest_increasing_subsequence', 'src/ordering.c'), ('compare_nodes_refpolicy_generic', 'src/ordering.c')], over=('inputs', 'programs', 'configurations'), filedefs={'ordering': ['calloc=vf_ord_calloc']})
prop('C005', 'C-005: permission lists out of order are reported, exactly',
     'A rule, an extended-permission rule or a class require gets a C-005 finding exactly if two neighbouring entries of its permission list are not in strictly ascending byte order. The two bounds of a range are not compared with each other, complements are judged by their members, and the order of types and classes does not matter.',
     'c005.c', 3, 'Lists of one to three permissions, each any identifier of up to 3 characters, in plain, complemented, excluded and range form.', PIPE, [TE, 'src/util.c', 'src/string_list.c'],
     [('check_unordered_perms', 'src/te_checks.c')])
prop('C006', 'C-006: unordered declarations in require blocks are reported, exactly',
     'In an interface, a require block gets a C-006 finding exactly if two neighbouring declarations violate the configured order of declaration kinds, or are of the same kind and not in strictly ascending name order while that order is configured. Names compare byte by byte, ignoring the t of a final _t.',
     'c006.c', 3, 'Two or three declarations of any of the six kinds, every permutation of the configured kind order, ordering by name on or off, names of 1-4 lowercase letters and single inner underscores.',
     'Longer names, digits, doubled underscores; more than three declarations.', [IF, 'src/ordering.c', 'src/util.c'], [('check_unordered_declaration_in_require', 'src/if_checks.c')],
     over=('inputs', 'configurations'), defs=['VF_HOLE=26', 'VF_STRMAX=26'])
prop('C007', 'C-007: a type naming itself as target instead of self is reported, exactly',
     'An access or extended-permission rule gets a C-007 finding exactly if its only source is also its only target and is a declared type, or a parameter name ending in _t. Attributes, sets of several names and self never cause a finding.',
     'c007.c', 1, 'Every pair of names of up to 4 characters in five rule shapes, with declared types and attributes.', PIPE, [TE, MP], [('check_no_self', 'src/te_checks.c')])
prop('S001', 'S-001: require blocks in te files are reported, exactly',
     'In a te file, a require or gen_require block at any depth gets an S-001 finding exactly if it names anything other than classes and permissions. Interface files are never reported.',
     's001.c', 2, 'Seven block shapes at top level and nested, with every name of up to 3 characters.', PIPE, [TE, 'src/parse.y'], [('check_require_block', 'src/te_checks.c')], over=('inputs', 'programs'))
prop('S003', 'Form of statements: S-003, S-006, S-008, C-004 and E-009 are exact',
     'Exactly the semicolons that end no statement get S-003, bare module statements S-006, unquoted gen_require blocks S-008, and interface or template definitions not directly preceded by a comment C-004. An optional, gen_require or require block gets E-009 exactly if everything in it is a comment or a stray semicolon.',
     'shape.c', sel([0, 5, 6, 7]), 'The kind of every neighbour (C-004) and of every child of blocks with up to three children (E-009) ranges over all statement kinds; positions at top level and in nested blocks.',
     'Blocks with more than three children.', [TE, IF, 'src/parse.y'], [('check_useless_semicolon, check_bare_module_statement, check_empty_block', 'src/te_checks.c'), ('check_interface_definitions_have_comment, check_unquoted_gen_require_block', 'src/if_checks.c')],
     over=('inputs', 'programs'))
prop('S004', 'S-004, S-005: template calls and declarations in interfaces are reported',
     'A call inside an interface gets an S-004 finding exactly if the called name is a template; calls in templates and te files never do. A declaration inside an interface, at any depth but not inside a require, gets an S-005 finding, and declarations elsewhere never do.',
     'shape.c', sel([1, 2, 3, 4]), 'Called names and template names range over all identifiers of up to 3 characters; all declaration kinds at two depths.', PIPE, [IF, MP, TR],
     [('check_if_calls_template, check_decl_in_if', 'src/if_checks.c')], over=('inputs', 'programs'))
prop('S009', 'S-009: permission macros that do not fit the classes are reported, exactly',
     'An access rule gets an S-009 finding exactly if it uses a permission macro (a name ending in _perms) whose name does not end with the rule\'s class name before that suffix, with the customary exceptions: terminal macros fit character devices, signal macros fit processes, and socket and netlink macros fit socket classes. Class sets and plain permissions are never reported.',
     'c006.c', sel([3, 4]), 'Nine representative classes (and every pair of them) against twelve permission and macro names.', 'Other class and macro names.', [TE], [('check_perm_macro_class_mismatch', 'src/te_checks.c')],
     defs=['VF_HOLE=26', 'VF_STRMAX=26'], over=('inputs',))
prop('S010', 'S-010: permission lists that contain a known macro are reported, exactly',
     'An allow rule on a single file class gets an S-010 finding if its list of at least two permissions or macros contains every permission of a known permission macro of that class, directly or through other macros, and two of its entries belong to that macro. Where none of a macro\'s permissions is implied by a listed one, the rule gets the finding only then. Other kinds of rules, rules on several classes or on other classes, and single permissions never get one.',
     's010.c', [dict(name='class%d' % k, defs=['CASE=0', 'WHICH=%d' % k]) for k in range(9)] + sel([1, 2]),
     'Every list of three permissions out of six (one of them in no macro, none implied by another) on each of eight classes, with three macros of that class and one of two permissions of other classes; rules of six kinds; a macro within another and in the rule.',
     'Permissions that others imply (which macros are suggested although they add some), macros that are in the rule already, the wording of the suggestion.', ['src/perm_macro.c', TE, MP],
     [('permmacro_check', 'src/perm_macro.c'), ('check_perm_macro_available', 'src/te_checks.c')], over=('inputs', 'configurations'), unwind=260, unwind_files={'perm_macro.c': 34}, filedefs={'perm_macro': ['look_up_in_permmacros_map=vf_pm_lookup', 'realloc=vf_pm_realloc', 'memcpy=vf_pm_memcpy', 'snprintf=vf_pm_snprintf']}, defs=['VF_HOLE=20', 'VF_STRMAX=22'])
prop('E006', 'E-006: identifiers that share an interface\'s name are reported, exactly',
     'A declared or required name gets an E-006 finding exactly if an interface of the same name is known. Each name of a list is judged on its own.',
     'e006.c', sel([0]), 'Two interface names and two declared names, each any identifier of up to 3 characters, in declarations, lists, requires and nested blocks.', PIPE, [TE, MP, PF], [('check_declaration_interface_nameclash', 'src/te_checks.c')])
prop('E007', 'E-007 and E-008: unknown permissions and classes are reported, exactly',
     'An access rule gets an E-007 finding exactly if it uses a permission that is neither a known permission nor a known permission macro nor a generated all-permissions macro; rules and transitions get E-008 exactly if they use a class that is unknown, no class set and no parameter. When the needed lists are empty, a note is printed and nothing is reported.',
     'e006.c', sel([1, 2, 3, 4]), 'Two names per statement over all identifiers of up to 3 characters against symbolic known names; special names from fixed lists; presence of each list symbolic.', PIPE, [TE, CH, MP],
     [('check_unknown_permission, check_unknown_class', 'src/te_checks.c'), ('register_checks', 'src/runner.c')], over=('inputs', 'configurations'))
prop('E010', 'E-010: stray words are reported, exactly',
     'A word standing alone in a te file gets an E-010 finding exactly if it is not configured as a macro and is not a comparison operand of an ifelse. The last argument of an ifelse, and every result argument, is judged like any other block.',
     'e006.c', sel([5]), 'Two words and two configured macro names, each any identifier of up to 3 characters, in fourteen positions including ifelse with three, seven and nested arguments.', PIPE, [TE, 'src/parse.y'],
     [('check_stray_word', 'src/te_checks.c')], over=('inputs', 'configurations'))
prop('F001', 'File-context findings name exactly the unknown or foreign parts of a context',
     'A file-context entry gets E-003, E-004 or E-005 exactly if its user, role or type is not known, S-002 exactly if its type is known but another module declares it, and S-007 exactly if it uses gen_context without a level; malformed lines, and only these, get E-002. Entries without a context are never reported, and generated files are exempt from S-002 exactly when configured.',
     'fc.c', sel([1, 2]), 'User, role, type and the declared ones are any identifiers of up to 3 characters; owner, gen_context, level and configuration symbolic; file names from a list.', 'Longer names.', [FC, MP],
     [('check_file_context_types_in_mod, check_gen_context_no_range, check_file_context_users/roles/types_exist', 'src/fc_checks.c')], over=('inputs', 'configurations'))
prop('A001', 'A check runs exactly when level, configuration and command line say so',
     'A check is run exactly if its severity is at or above the level and it is enabled, where the default is enabled and each of config disable, config enable, command-line disable and command-line enable, in this order, overrides what precedes it. In only-enabled mode the default is disabled and only command-line enabling counts.',
     'select.c', [dict(name='all', filedefs={'runner': ['add_check=vf_add_check']})], 'All 35 check IDs at once; every level byte; each of the four lists holds 0-2 IDs of any severity letter and number 0-19; only-enabled symbolic.',
     'Lists of more than two IDs (the lists are plain membership tests); reading the lists from the configuration file and the command line (see the other properties).',
     ['src/runner.c', 'src/string_list.c'], [('is_check_enabled / register_checks', 'src/runner.c'), ('str_in_sl', 'src/string_list.c')], over=('configurations',),
     why='The suite tests a handful of enable/disable combinations; precedence must hold for every check and every combination of four lists, level and mode.')
prop('A002', 'Disable comments suppress exactly the named checks on exactly their line',
     'A finding is suppressed exactly if its check ID stands in a selint-disable comment on the line of the statement it is reported for; for a block, this is the line that opens or the line that closes it. Every statement of the line is covered, no statement of another line is, and what is not suppressed is reported and counted.',
     'disable.c', 3, 'The check ID and every ID in 22 comments (one or two per comment, with and without spaces) range over all severities and numbers 0-19; comments on single-line, multi-line, list and empty statements, on several statements of one line, and on opening and closing lines of every kind of block, at one and two levels.',
     'Comments with more than two IDs; other nestings.', [CH, PF, 'src/parse.y'], [('call_checks_for_node_type', 'src/check_hooks.c'), ('save_command', 'src/parse_functions.c'), ('SELINT_COMMAND rules', 'src/parse.y')],
     defs=['VF_STRMAX=40', 'VF_STRLIM=60'],
     why='The suite checks one or two comments on one kind of statement; attachment differs for each statement and block form and has to hold for every ID.')
prop('A003', 'The summary counts every finding exactly once', 
     'The summary lists each check ID that has findings once, ordered by severity (C, S, W, E) and number, with the number of its findings in all files and at all kinds of statements; without findings it says so. In summary-only mode the same findings count although no finding line is printed.',
     'acct.c', sel([0]), 'Four (thorough: five) check registrations with arbitrary IDs (any severity, number 0-19, possibly equal) at three kinds of statements, each firing or not in two (three) runs over the statements; summary-only symbolic.',
     'More registrations; counters beyond 3 (they are plain additions).', [CH], [('call_checks_for_node_type', 'src/check_hooks.c'), ('display_check_issue_counts', 'src/check_hooks.c')],
     observe=['summary on standard output'], over=('inputs', 'histories'),
     why='The suite checks one or two counts; totals and order have to be right for every mix of IDs, statement kinds and files.')
prop('A004', 'Finding lines carry file, line, severity, message and ID unchanged',
     'Each finding is printed as one line with the base name of the file, the line number, the severity letter, the message and the check ID, whatever characters file name and message contain, in colour or not. Checks are told the file\'s base name and the module name, which is that name up to its last dot, for every path.',
     'acct.c', sel([1, 2]), 'File names of 1, 2, 20, 21, 22 and 28 arbitrary bytes, messages of up to 4 arbitrary bytes, every line number below 2^24, every check number below 100, colour on or off; every path of up to 9 (thorough: 12) bytes with a dot in its last component.',
     'Longer messages and paths.', [CH, 'src/color.c', 'src/runner.c'], [('display_check_result', 'src/check_hooks.c'), ('run_all_checks', 'src/runner.c')], defs=['VF_REAL_MESSAGES'],
     why='The suite compares a few sample lines; path and message bytes are arbitrary in practice.')
prop('A005', 'Everything is parsed before anything is checked, and context is never reported',
     'Before the first statement is checked, every given file, also context files, has been read and its declarations and interfaces are known. Then exactly the files under analysis are checked, each statement once, policy files before interface files before file contexts; if any file cannot be opened or parsed the run fails without a finding.',
     'run.c', 8, 'Seven files in the five lists; declared and called names symbolic; one run with all files good, and one for each list with a file that cannot be opened, or whose contents are of another kind.', 'Other numbers of files; syntax errors inside a file (the generated error-message code is out of reach here); findings of the single checks (see their properties).',
     ['src/runner.c', 'src/startup.c'], [('run_analysis', 'src/runner.c'), ('run_checks_on_one_file', 'src/runner.c')], over=('inputs', 'histories', 'fault_sequences'),
     why='The suite runs whole directories; which file\'s failure or absence changes what has to be tried per list.')
CLI = dict(srcs=['main', 'string_list', 'file_list', 'color', 'check_hooks', 'util', 'maps', 'tree'],
           objdefs=['main=selint_main', 'printf=vf_quiet', 'puts=vf_quiet2', 'vprintf=vf_quietv', 'exit=vf_exit', 'isatty=vf_isatty', 'access=vf_access',
                    'fts_open=vf_fts_open', 'fts_read=vf_fts_read', 'fts_close=vf_fts_close', 'fts_set=vf_fts_set'], filedefs={'file_list': ['free_policy_node=vf_nofree']}, vfs=False)
prop('A006', 'Options have their documented effect, and the exit code tells the outcome',
     'Options, in short and long form and in any order, set level, configuration file, enabled and disabled checks, only-enabled mode, source and context mode, summary, colour, verbosity and parser debugging as documented; the command line overrides the configuration, and without one the documented defaults apply. The exit code is 0 on success, 64 for wrong usage (unknown option, level or colour, missing -c file, -E without -e, no path), 78 for a bad configuration, 70 if a file cannot be analysed, and 65 exactly if -F is given and there are findings.',
     'cli.c', [dict(name='opts%d' % n, defs=['CASE=0', 'NITEM=%d' % n]) for n in (0, 1, 2, 3)] + [dict(name='opts4', defs=['CASE=0', 'NITEM=4'], tier='thorough'), dict(name='nopath', defs=['CASE=1', 'NITEM=2'])],
     'Every sequence of up to 3 (thorough: 4) options out of all short and long ones and two unknown ones, with every argument of up to 5 bytes; terminal, readability and validity of the configuration, its level, success of loading, of setting up the checks and of the analysis, and presence of findings are symbolic.',
     'Abbreviated long options and bundled short options (libc); the text of messages; -m.', ['src/main.c', 'src/string_list.c', 'src/color.c', 'src/util.c'], [('main', 'src/main.c')], over=('inputs', 'configurations', 'fault_sequences'),
     observe=['exit code', 'arguments of the analysis'], why='The suite runs a few option combinations through the built program; order, repetition and combination with outcomes are what it cannot enumerate.', **CLI)
prop('A007', 'Files found are treated as policy, interface, file-context or support files',
     'Every file found below the given paths whose name ends in .te, .if or .fc is analysed as that kind, in the order found; in source mode modules.conf, obj_perm_sets.spt and access_vectors are loaded, from the context only if the paths have none, and the running system is not consulted, while otherwise it is. Files below a context path are only context; directories are entered only in recursive mode, and hidden ones only on request.',
     'cli.c', sel([2, 3, 4, 5, 6, 7]), 'Two files given themselves, and one to four entries of any kind (file, directory before and after its contents) below the paths and up to four below a context path; names of 1, 3 and 4 arbitrary bytes and those of all support files; source, recursive and hidden mode and success of loading symbolic.',
     'Directory traversal itself (libc); more entries; names that start with two dots.', ['src/main.c', 'src/file_list.c', 'src/maps.c'], [('main', 'src/main.c'), ('file_list_push_back', 'src/file_list.c')], over=('inputs', 'configurations', 'fault_sequences'),
     observe=['file lists of the analysis'], defs=['VF_STRMAX=24'], why='The suite has one directory layout per test; classification has to hold for every name and order.', **CLI)
prop('A008', 'Configuration settings take effect as documented, bad ones are refused',
     'A configuration file is accepted exactly if it parses and each setting has a documented value, where the order of required kinds must list each of the six kinds once. The severity, the lists of disabled checks, of enabled checks for the mode, of assumed users and roles and of custom macros, the ordering rules and the switches then are those written, and what is not set has its documented default.',
     'config.c', [dict(name='scalar%d' % n, defs=['CASE=0', 'ONE=%d' % n]) for n in range(4)] + [dict(name='lists%d%d' % (n, m), defs=['CASE=1', 'LEN=%d' % n, 'SRC=%d' % m]) for n in (0, 1, 3) for m in (0, 1)]
     + [dict(name='assume%d' % n, defs=['CASE=2', 'LEN=%d' % n]) for n in (0, 1, 2)] + [dict(name='order%d' % n, defs=['CASE=3', 'LEN=%d' % n, 'POS=9']) for n in (0, 5, 7)] + [dict(name='order6_%d' % n, defs=['CASE=3', 'LEN=6', 'POS=9', 'SYM=%d' % n]) for n in (7, 56, 21, 42)] + [dict(name='order6', defs=['CASE=3', 'LEN=6', 'POS=9'], tier='thorough')] + [dict(name='word%d' % n, defs=['CASE=3', 'LEN=6', 'POS=%d' % n]) for n in range(6)],
     'Every value of up to 16 letters, digits, - and _ for each setting, the others unset or one of three values; lists of 0 to 3 entries; orders of 0, 5 and 7 of the six kinds, orders of six with any kinds at three (thorough: all) positions or any word at one.', 'The syntax of the file (libconfuse, modelled as a table of settings, replayed with the real library); other characters; longer lists.',
     ['src/selint_config.c'], [('parse_config', 'src/selint_config.c'), ('parse_bool', 'src/selint_config.c')], over=('configurations', 'inputs'), observe=['configuration passed to the analysis'], vfs=False,
     defs=['VF_STRMAX=40', 'VF_STRLIM=60'],
     why='The suite loads a few sample files; which words are accepted and what each combination yields has to hold for all.')
prop('A009', 'Classes, permissions, modules and macros are known exactly as the files say',
     'The known classes and permissions are those of the running system\'s class directory or, in source mode, of the access-vectors file; known permission macros are the current definitions of the object-permission file that end in _perms, each standing for its first definition. Each module listed in modules.conf has the status of its first line, comments and blank lines are skipped, lines without a setting are refused, and no content is read beyond its end.',
     'startup.c', [dict(name='kernel', defs=['CASE=0'])] + [dict(name='line%d' % n, defs=['CASE=1', 'LEN=%d' % n], memcheck=True) for n in (1, 2, 3, 5, 7)] + [dict(name='line8', defs=['CASE=1', 'LEN=8'], memcheck=True, tier='thorough'), dict(name='lines', defs=['CASE=2'], unwind_files={'models.c': 18, 'startup.c': 18})]
     + [dict(name='bad%d' % n, defs=['CASE=3', 'WHICH=%d' % n]) for n in (0, 1, 4, 16, 2, 8, 32)] + [dict(name='av', defs=['CASE=5']), dict(name='spt', defs=['CASE=6'])],
     'Four directory entries of any kind, depth and of five names; every line of modules.conf of up to 7 (thorough: 8) bytes, and four settings with any names and statuses of 3 and 2 bytes; access vectors and macros with identifiers of up to 3 characters.',
     'Longer lines; syntax errors in access-vector and macro files.', ['src/startup.c', 'src/maps.c', 'src/parse.y'],
     [('load_access_vectors_kernel, load_modules_source', 'src/startup.c'), ('av_definition, support_def rules', 'src/parse.y')], over=('inputs', 'configurations'), observe=['known names'],
     objdefs=['access=vf_access', 'fts_open=vf_fts_open', 'fts_read=vf_fts_read', 'fts_close=vf_fts_close', 'fts_set=vf_fts_set'],
     why='The suite loads one sample file of each kind; names, spacing and line ends vary freely in practice.')
prop('A010', 'Exactly the IDs of existing checks are recognised as check IDs',
     'A name given to enable or disable a check is recognised exactly if it is a severity letter, a dash and the number of a check of that severity; every check there is has such an ID. Other words, of any length, are refused without looking beyond their end.',
     'checkid.c', [dict(name='len%d' % n, defs=['LEN=%d' % n], memcheck=True, filedefs={'runner': ['add_check=vf_add_check']}) for n in (0, 1, 2, 3, 5, 6, 7)],
     'Every string of 0-7 bytes (except 4), each in a block of its exact size.', 'Longer strings; numbers followed by other text (accepted as the number).', [CH, 'src/runner.c'],
     [('is_valid_check', 'src/check_hooks.c')], over=('inputs', 'configurations'), observe=['warning about unknown IDs'],
     why='The suite tries ten strings; short and malformed ones are where a reader of fixed positions goes wrong.')
prop('A011', 'A template call declares exactly the names its arguments make',
     'A call of a template declares, for the calling module, exactly the types, aliases, roles, booleans and attributes of the template and of the templates it calls, with every argument put in wherever it is used, however often, and nothing for a missing one. Declarations in a template that nobody calls, in an interface or in a requirement declare nothing. Nothing is written beyond the memory a name needs, whatever the name and the arguments.',
     'tmplcall.c', [dict(name='name%d' % k, defs=['CASE=0', 'K=%d' % k, 'A=2', 'B=%d' % (3 * k + 8), 'VF_STRLIM=%d' % max(k + 3, 6), 'VF_STRMAX=8'], unwind=k + 3, unwind_files={'tmplcall.c': 3 * k + 11, 'models.c': max(k + 3, 8) + 2}, memcheck=k < 4, tier='thorough' if k > 5 else 'quick', filedefs={'template': ['malloc=vf_cap_malloc']}) for k in (0, 1, 2, 3, 4, 5, 6)]
     + [dict(name='long', defs=['CASE=0', 'K=4', 'A=5', 'LONG', 'B=28', 'VF_STRLIM=13', 'VF_STRMAX=16'], unwind=7, unwind_files={'tmplcall.c': 31, 'models.c': 18}, filedefs={'template': ['malloc=vf_cap_malloc']}), dict(name='one', defs=['CASE=2'], memcheck=True, filedefs={'template': ['malloc=vf_cap_malloc']})]
     + [dict(name='pass%d' % k, defs=['CASE=3', 'N=%d' % k, 'B=16', 'VF_STRLIM=6', 'VF_STRMAX=8'], unwind=9, memcheck=True, filedefs={'template': ['malloc=vf_cap_malloc']}) for k in (0, 1, 2)] + [
        dict(name='call', defs=['CASE=1'], filedefs={'template': ['malloc=vf_cap_malloc']})],
     'Every name of 0-5 bytes with 0-3 arguments of 0-2 bytes each, and of two substitutions with arguments of 5 known bytes; four templates that call each other, called with any two arguments of 1-2 identifier characters, against any looked-up name of up to 12 bytes.',
     'Longer names and more arguments; a dollar sign not followed by a positive number.', ['src/template.c', 'src/maps.c', 'src/parse_functions.c', 'src/parse.y'],
     [('replace_m4, add_template_declarations', 'src/template.c'), ('insert_declaration, insert_interface_call', 'src/parse_functions.c')], observe=['names known to be declared'],
     why='The suite expands a few templates with fixed arguments; arguments are used repeatedly, missing or empty in real policies.')
def fcmax(p, k): return max(14, len(p) + k + 2)
def fcsize(p, k): return dict(unwind=fcmax(p, k) + 3)
def fcdefs(p, k): return ['VF_STRMAX=%d' % fcmax(p, k), 'VF_STRLIM=%d' % (fcmax(p, k) + 1)]
FCP = [('', 7), ('a ', 6), ('a -', 7), ('a gen_context(', 6), ('a gen_context(u:r:', 6), ('a -d gen_context(u:r:t,', 4), ('a u:r:t', 4), ('a <<none>', 2), ('a -d <<none', 3)]
prop('F002', 'File-context lines are split into exactly the parts they consist of',
     'A file-context line of a path, an optional object class and a context, in plain form, as gen_context or as <<none>>, is accepted whatever its spacing and line end, and path, object class, user, role, type and level are exactly those written. A line that lacks a part, has an object class of more than one letter, or a gen_context without end is refused, and no line is read beyond its end.',
     'fcline.c', [dict(fcsize(p, k), name='p%d' % i, filedefs={'parse_fc': ['malloc=vf_cap_malloc']}, defs=['PRE="%s"' % p, 'K=%d' % k] + fcdefs(p, k)) for i, (p, k) in enumerate(FCP)]
     + [dict(fcsize(p, min(k, 4)), name='m%d' % i, defs=['PRE="%s"' % p, 'K=%d' % min(k, 4), 'MEMORY'] + fcdefs(p, min(k, 4)), memcheck=True) for i, (p, k) in enumerate(FCP)],
     'Every line that consists of one of nine beginnings (none, a path, an object class, parts of a gen_context, of a plain context and of <<none>>) and up to 7 arbitrary bytes; for reading beyond the end, each line of up to 4 arbitrary bytes after these beginnings in a block of its exact size.',
     'Longer lines. Accepted but not decided here: text after the closing parenthesis, empty fields, blanks inside contexts.', ['src/parse_fc.c'],
     [('parse_fc_line', 'src/parse_fc.c'), ('parse_context', 'src/parse_fc.c')], observe=['recorded entry'], parallel=6, why='The suite parses a dozen lines; spacing, line ends and missing parts combine freely.')
