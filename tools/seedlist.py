def define(seed, V, F, P):
    seed('c01-rewind-order', 'C01', [(V, 'for element in top_snap.drain(..).rev() {', 'for element in top_snap.drain(..) {')],
         'a group that fails after matching two or more different elements, which are then matched by something else',
         'elements put back by a failed group come back in reverse order',
         [('t = [(int, tstr, bool // int, tstr, nil)]', 't', '[1, "a", null]', 'ok')])
    seed('c02-null-left', 'C02', [(V, '    if working_map.map.is_empty() {\n        Ok(())', '    if working_map.map.values().all(|v| *v == Value::Null) {\n        Ok(())')],
         'an entry with the value null that no member matches', 'left-over entries are ignored when their value is null',
         [('t = {a: int}', 't', '{"a": 1, "b": null}', 'mismatch')])
    seed('c03-cut-keeps', 'C03', [(V, '                        working_map.rewind();\n\n                        // Also forget',
                                   '                        if e.is_mismatch() {\n                            working_map.rewind();\n                        } else {\n                            working_map.commit();\n                        }\n\n                        // Also forget')],
         'a group in a map that matches an entry and then fails on a cut key, with a later alternative needing that entry',
         'what a group matched before failing on a cut key is not given back',
         [('t = {(a: int, b: int // a: int, b: tstr)}', 't', '{"a": 1, "b": "x"}', 'ok')])
    seed('c04-inverted', 'C04', [(V, '    if count < lower_limit {\n        working_array.rewind();', '    if count < lower_limit.min(upper_limit) {\n        working_array.rewind();')],
         'an occurrence whose lower limit exceeds the upper one, in an array', 'inverted occurrence limits are accepted',
         [('t = [3*2 int]', 't', '[1, 2]', 'mismatch')])
    seed('c04-star-cap', 'C04', [('src/ivt.rs', 'OccurLimit::ZeroOrMore => (0, usize::MAX),', 'OccurLimit::ZeroOrMore => (0, usize::from(u8::MAX)),')],
         'more than 255 elements matched by one *', '* stops after 255 matches',
         [('t = [* int]', 't', '[' + ','.join(['1'] * 300) + ']', 'ok')])
    seed('c06-cify-occ', 'C06', [(V, '            Node::KeyValue(kv) => validate(value, &kv.value, ctx),\n            Node::Rule(rule) => {',
                                  '            Node::KeyValue(kv) => match kv.value.as_ref() {\n                Node::Choice(c) => validate(value, &c.options[0], ctx),\n                other => validate(value, other, ctx),\n            },\n            Node::Rule(rule) => {')],
         '& of a group with a member whose value is a choice, and data matching a later option of it',
         'only the first option of a member of a choice-ified group is considered',
         [('t = &(a: 1 / 2, b: 3)', 't', '2', 'ok')])
    seed('c07-generic-soft', 'C07', [('src/util.rs', '        !matches!(self, ValidateError::Mismatch(_) | ValidateError::MapCut(_))',
                                      '        !matches!(\n            self,\n            ValidateError::Mismatch(_) | ValidateError::MapCut(_) | ValidateError::GenericError\n        )')],
         'a wrong number of generic arguments in an option before one that accepts the data',
         'a generic error inside a choice is masked by a later option',
         [('t = g<int, int> / int\ng<a> = a', 't', '1', 'generic')])
    seed('c07-value-soft', 'C07', [('src/util.rs', '        !matches!(self, ValidateError::Mismatch(_) | ValidateError::MapCut(_))',
                                    '        !matches!(\n            self,\n            ValidateError::Mismatch(_) | ValidateError::MapCut(_) | ValidateError::ValueError(_)\n        )')],
         'undecodable embedded CBOR reached in an option before one that accepts the data',
         'undecodable embedded CBOR inside a choice is masked by a later option',
         [('t = (bstr .cbor int) / bstr', 't', [0x41, 0xff], 'value')])
    seed('c09-off-by-one', 'C09', [(V, '        if self.depth >= Self::MAX_DEPTH {', '        if self.depth > Self::MAX_DEPTH {')],
         'exactly 51 nested rule references', 'one reference too many is followed',
         [('\n'.join('r%d = r%d' % (i, i + 1) for i in range(51)) + '\nr51 = int', 'r0', '1', 'structural')])
    seed('c09-generic-depth', 'C09', [(V, '            generic_map,\n            depth: self.inc_depth()?,',
                                       '            generic_map,\n            depth: if args_len == 0 { self.inc_depth()? } else { self.depth },')],
         'unbounded recursion through generic rules only', 'references with generic arguments are not counted: unbounded recursion',
         [('t = g<int>\ng<a> = a / g<a>', 't', '"x"', 'structural')])
    seed('c10-neg-zero', 'C10', [(V, 'if check_range(f1, f2, &v.0, range.inclusive) {',
                                  'if check_range(\n                &float_ord::FloatOrd(*f1),\n                &float_ord::FloatOrd(*f2),\n                v,\n                range.inclusive,\n            ) {')],
         'a negative zero at the lower end of a floating-point range', '-0.0 is taken for less than 0.0',
         [('t = 0.0..1.0', 't', [0xf9, 0x80, 0x00], 'ok')])
    seed('c10-i64', 'C10', [(V, 'if check_range(i1, i2, v, range.inclusive) {', 'if check_range(*i1 as i64, *i2 as i64, *v as i64, range.inclusive) {')],
         'a range with integers of 2^63 or more', 'integers of 2^63 and more wrap around',
         [('t = 1..18446744073709551615', 't', '5', 'ok')])
    seed('c11-nint-ge', 'C11', [(V, '            } else if *x >= lt {\n                Ok(())\n            } else {\n                Err(mismatch("nint over .ge limit"))',
                                 '            } else if x.unsigned_abs() <= lt.unsigned_abs() {\n                Ok(())\n            } else {\n                Err(mismatch("nint over .ge limit"))')],
         'nint .ge with a positive limit', 'nint .ge compares magnitudes',
         [('t = nint .ge 5', 't', '-3', 'mismatch')])
    seed('c12-empty-excl', 'C12', [(V, '    if min_u > max_u || (min_u == max_u && !size.inclusive) {\n        return Err(mismatch("bstr over .size limit"));\n    }\n', ''),
                                   (V, '            let len_u: u64 = b.len().try_into().unwrap_or(u64::MAX);\n\n            if len_u < min_u {',
                                    '            let len_u: u64 = b.len().try_into().unwrap_or(u64::MAX);\n            let (min_u, max_u) = (min_u.min(max_u), max_u.max(min_u));\n\n            if len_u < min_u {')],
         'bstr .size with an inverted range', 'the ends of an inverted .size range are swapped',
         [('t = bstr .size (4..2)', 't', [0x43, 1, 2, 3], 'mismatch')])
    seed('c12-uint-width', 'C12', [(V, '                let limit = 1i128 << (n * 8);', '                let limit = 1i128 << (n * 8).min(63);')],
         'uint .size 8 with a value of 2^63 or more', 'uint .size 8 rejects integers of 2^63 and more',
         [('t = uint .size 8', 't', '18446744073709551615', 'ok')])
    seed('c13-scope', 'C13', [(V, '            validate(&nested_value, ctl_cbor.node.as_ref(), ctx)', '            validate(&nested_value, ctl_cbor.node.as_ref(), &ctx.blank()?)')],
         '.cbor with a generic parameter as argument', 'generic parameters are unknown inside .cbor',
         [('g<a> = bstr .cbor a\nt = g<int>', 't', [0x41, 1], 'ok')])
    seed('c14-small', 'C14', [(F, '                .size_limit(1 << 20)', '                .size_limit(1 << 14)')],
         'a pattern with large character classes or repetitions', 'ordinary patterns are rejected as malformed',
         [('t = tstr .regexp "^\\\\w{1,4}$"', 't', '"ab"', 'ok')])
    seed('c15-neg-zero', 'C15', [('src/value.rs', 'Value::Float(FloatOrd(f.into()))', 'Value::Float(FloatOrd(f.into() + 0.0))')],
         'a negative zero in data or schema', 'the literals 0.0 and -0.0 are confused',
         [('t = 0.0', 't', [0xf9, 0x80, 0x00], 'mismatch')])
    seed('c15-big-int', 'C15', [(V, '        (PreludeType::Nint, Value::Integer(x)) if *x < 0 => Ok(()),',
                                 '        (PreludeType::Nint, Value::Integer(x)) if (i128::from(i64::MIN)..0).contains(x) => Ok(()),')],
         'a negative CBOR integer below -2^63', 'nint rejects integers below -2^63',
         [('t = nint', 't', [0x3b] + [0xff] * 8, 'ok')])
    seed('c16-json-u64', 'C16', [('src/json.rs', '                if let Some(u) = num.as_u64() {\n                    Value::Integer(i128::from(u))\n                } else if', '                if')],
         'a JSON integer of 2^63 or more', 'JSON integers of 2^63 and more become floating-point numbers',
         [('t = uint', 't', '18446744073709551615', 'ok')])
    seed('c16-precedence', 'C16', [('src/cbor.rs', '''    // Find the rule name that was requested
    let rule_def: &RuleDef = ctx
        .rules
        .get(name)
        .ok_or_else(|| ValidateError::MissingRule(name.into()))?;

    // Deserialize the CBOR bytes
    let cbor_value: CBOR_Value =
        ciborium::from_reader(cbor).map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
''', '''    // Deserialize the CBOR bytes
    let cbor_value: CBOR_Value =
        ciborium::from_reader(cbor).map_err(|e| ValidateError::ValueError(format!("{}", e)))?;

    // Find the rule name that was requested
    let rule_def: &RuleDef = ctx
        .rules
        .get(name)
        .ok_or_else(|| ValidateError::MissingRule(name.into()))?;
''')], 'an unknown rule name and undecodable CBOR data in the same call', 'undecodable data is reported before an unknown rule name',
         [('t = int', 'u', [0xff], 'missing')])
    seed('c18-comment-ascii', 'C18', [(P, "        charx(';'),\n        not_line_ending\n", "        charx(';'),\n        recognize(nom::multi::many0_count(one_of::<&str, &str, CowParseError>(\" !\\\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\")))\n")],
         'a comment with a character outside printable ASCII', 'comments may only contain printable ASCII',
         [('t = int ; na\u00efve', 't', '1', 'ok')])
    seed('c19-hex-space', 'C19', [(P, 'filter(|c| !c.is_ascii_whitespace())', 'filter(|c| !c.is_ascii_whitespace() && *c != \'_\')')],
         'an underscore in a hex byte string', 'underscores in hex byte strings are ignored',
         [("t = h'12_34'", 't', [0x42, 0x12, 0x34], 'parse')])
    seed('c20-unwrap', 'C20', [(P, '''        u64::from_str_radix(raw.slice, raw.base)
        .map_err(|_| {
            parse_error(ErrorKind::MalformedInteger, raw.slice)
        })''', '''        Ok(u64::from_str_radix(raw.slice, raw.base).unwrap())''')],
         'an occurrence limit of 2^64 or more', 'an occurrence limit that does not fit panics',
         [('t = [99999999999999999999* int]', 't', '[]', 'parse')])
    seed('c21-first', 'C21', [(F, '''            Ok((name, (flat, s.clone())))
        })
        .collect()''', '''            Ok((name, (flat, s.clone())))
        })
        .collect::<FlattenResult<Vec<_>>>()
        .map(|v| {
            let mut rules = RulesWithStrings::new();
            for (name, def) in v {
                rules.entry(name).or_insert(def);
            }
            rules
        })''')], 'a rule defined twice, built with the slice-preserving builder', 'the slice-preserving builder keeps the first definition of a name',
         [], code=r'''
    let r = cddl_cat::flatten::slice_flatten_from_str("a = int\na = tstr").unwrap();
    assert_eq!(r.get("a").unwrap().1, "a = tstr");
''')
    seed('c22-one-step', 'C22', [(V, '            let answer = ctx.lookup_rule(r)?;\n            deref_range_rule(answer.node, &answer.ctx)',
                                  '            let answer = ctx.lookup_rule(r)?;\n            match answer.node {\n                Node::Rule(r) if !r.generic_args.is_empty() => Err(ValidateError::Structural(\n                    "confusing type on range operator".into(),\n                )),\n                n => deref_range_rule(n, &answer.ctx),\n            }')],
         'a range endpoint that is the name of a rule referring to a generic rule', 'a range endpoint may not be named through a generic rule',
         [('t = 0..hi\nhi = id<5>\nid<x> = x', 't', '3', 'ok')])
    seed('c25-alias', 'C25', [(F, '        "eb64url" | "eb64legacy" | "eb16" | "cbor-any" => Node::PreludeType(PreludeType::Any),', '        "eb64url" | "eb64legacy" | "cbor-any" => Node::PreludeType(PreludeType::Any),')],
         'the prelude name eb16', 'eb16 is taken for the name of a rule',
         [('t = eb16', 't', '1', 'ok')])
    seed('c26-nocbor', 'C26', [(V, '''fn validate_control_cbor(_ctl_cbor: &CtlOpCbor, _value: &Value, _ctx: &Context) -> ValidateResult {
    Err(''', '''fn validate_control_cbor(_ctl_cbor: &CtlOpCbor, value: &Value, _ctx: &Context) -> ValidateResult {
    if !matches!(value, Value::Bytes(_)) {
        return Err(mismatch("Bytes"));
    }
    Err(''')], 'a build with only the JSON feature and a value that reaches .cbor', 'without CBOR support .cbor is a mismatch instead of an unsupported feature',
         [('t = bstr .cbor int', 't', '1', 'unsupported')], files=['json'])
    seed('c28-swallow', 'C28', [(V, '        let rule_def: &RuleDef = self.lookup.lookup_rule(&rule.name)?;',
                                 '        let rule_def: &RuleDef = self\n            .lookup\n            .lookup_rule(&rule.name)\n            .map_err(|_| ValidateError::MissingRule(rule.name.clone()))?;')],
         'a caller-defined context that returns an error other than a missing rule', 'errors of the lookup context are replaced by a missing rule',
         [], code=r'''
    use cddl_cat::context::LookupContext;
    use cddl_cat::ivt::{RuleDef, RulesByName};
    struct C(RulesByName);
    impl LookupContext for C {
        fn lookup_rule<'a>(&'a self, name: &str) -> Result<&'a RuleDef, ValidateError> {
            self.0.get(name).ok_or_else(|| ValidateError::Unsupported("custom".into()))
        }
    }
    let c = C(cddl_cat::flatten::flatten_from_str("t = [u]").unwrap());
    let r = cddl_cat::json::validate_json(c.0.get("t").unwrap(), &serde_json::json!([1]), &c);
    assert_eq!(kind(&r), "unsupported");
''')
    more(seed, V, F, P)


def more(seed, V, F, P):
    seed('c01-empty-last', 'C01', [(V, '            for option in &c.options {\n                match validate_array_member(option, working_array, ctx) {',
                                    '            let (full, empty): (Vec<&Node>, Vec<&Node>) = c\n                .options\n                .iter()\n                .partition(|o| !matches!(o, Node::Group(g) if g.members.is_empty()));\n            for option in full.into_iter().chain(empty) {\n                match validate_array_member(option, working_array, ctx) {')],
         'a group choice whose first alternative is empty, before something that takes the element',
         'an empty alternative is only tried last', [('t = [( // int), int]', 't', '[1]', 'ok')])
    seed('c02-int-float', 'C02', [(V, '''    let search_key = Value::from(literal);
    match working_map.peek_at(&search_key) {''', '''    let mut search_key = Value::from(literal);
    if let Literal::Float(f) = literal {
        if f.fract() == 0.0 && !working_map.map.contains_key(&search_key) {
            search_key = Value::Integer(*f as i128);
        }
    }
    match working_map.peek_at(&search_key) {''')],
         'a map key that is a whole floating-point literal, and data with the integer key', 'an integer key is taken for a floating-point one',
         [('t = {1.0 => int}', 't', [0xa1, 1, 1], 'mismatch')])
    seed('c03-null-lost', 'C03', [(V, '            snap.push_back((key.clone(), value));',
                                   '            if value != Value::Null {\n                snap.push_back((key.clone(), value));\n            }')],
         'a group of a map that matches an entry with the value null and then fails', 'entries with the value null are not given back',
         [('t = {(a: nil, b: int // a: nil, c: int)}', 't', '{"a": null, "c": 1}', 'ok'),
          ('t = {? (a: nil, b: int)}', 't', '{"a": null}', 'mismatch')])
    seed('c04-zero', 'C04', [('src/ivt.rs', 'OccurLimit::Numbered(n, m) => (n, m),', 'OccurLimit::Numbered(n, m) => (n, m.max(1)),')],
         'an occurrence with an upper limit of nought', '0*0 allows one occurrence', [('t = [0*0 int]', 't', '[1]', 'mismatch')])
    seed('c05-null-cut', 'C05', [(V, '                (true, ValidateError::Mismatch(m)) => {', '                (true, ValidateError::Mismatch(m)) if *working_val != Value::Null => {')],
         'an optional member with a cut key, the value null in the data, and a later wildcard', 'a cut is not applied to entries with the value null',
         [('t = {? a: int, * tstr => any}', 't', '{"a": null}', 'mismatch')])
    seed('c06-eight', 'C06', [(V, '    for node in &choice.options {\n        match validate(value, node, ctx) {', '    for node in choice.options.iter().take(8) {\n        match validate(value, node, ctx) {')],
         'a choice with more than eight options', 'only the first eight options of a choice are tried',
         [('t = 1 / 2 / 3 / 4 / 5 / 6 / 7 / 8 / 9', 't', '9', 'ok')])
    seed('c07-array-unsupported', 'C07', [(V, '''                match validate_array_member(option, working_array, ctx) {
                    Ok(()) => {
                        return Ok(());
                    }
                    Err(e) => {
                        // Only fail if the error is considered fatal.
                        // Otherwise, we'll keep trying other options.
                        if e.is_fatal() {''', '''                match validate_array_member(option, working_array, ctx) {
                    Ok(()) => {
                        return Ok(());
                    }
                    Err(e) => {
                        // Only fail if the error is considered fatal.
                        // Otherwise, we'll keep trying other options.
                        if e.is_fatal() && !matches!(e, ValidateError::Unsupported(_)) {''')],
         'an unsupported construct in an alternative of an array, before one that matches', 'unsupported constructs in a choice inside an array are masked by a later alternative',
         [('t = [(a: g // int)]\ng = (int, int)', 't', '[1]', 'unsupported')])
    seed('c08-capture', 'C08', [(V, '                Some(ctx) => ctx.clone(),\n', '                Some(ctx) => match node {\n                    Node::Rule(r)\n                        if r.name != rule.name && self.generic_map.map.contains_key(&r.name) =>\n                    {\n                        self.clone()\n                    }\n                    _ => ctx.clone(),\n                },\n')],
         'nested generic rules where an argument has the name of another parameter of the rule it is given to',
         'an argument is captured by a parameter of the same name',
         [('t = g<int>\ng<a> = h<a, tstr>\nh<x, a> = [x, a]', 't', '[1, "s"]', 'ok')])
    seed('c08-arity', 'C08', [(V, '        if parms_len != args_len {', '        if parms_len > 0 && parms_len != args_len {')],
         'generic arguments given to a rule without parameters', 'arguments of a rule without parameters are ignored',
         [('t = [g<tstr>]\ng = int', 't', '[1]', 'generic')])
    seed('c09-cbor-reset', 'C09', [(V, '            validate(&nested_value, ctl_cbor.node.as_ref(), ctx)', '            let ctx = Context {\n                depth: 0,\n                ..ctx.clone()\n            };\n            validate(&nested_value, ctl_cbor.node.as_ref(), &ctx)')],
         'more than fifty nested references, some of them inside embedded CBOR', 'the count of nested references starts again inside .cbor',
         [('\n'.join('r%d = r%d' % (i, i + 1) for i in range(30)) + '\nr30 = bstr .cbor s0\n' +
           '\n'.join('s%d = s%d' % (i, i + 1) for i in range(30)) + '\ns30 = int', 'r0', [0x41, 1], 'structural')])
    seed('c10-excl-float', 'C10', [(V, 'if check_range(f1, f2, &v.0, range.inclusive) {', 'if check_range(f1, f2, &v.0, range.inclusive || f1 == f2) {')],
         'an exclusive floating-point range with equal endpoints', 'f...f accepts f', [('t = 1.5...1.5', 't', '1.5', 'mismatch')])
    seed('c11-le-wrap', 'C11', [(V, '''            if *x <= lt {
                Ok(())
            } else {
                Err(mismatch("int over .le limit"))''', '''            if *x as i64 <= lt as i64 {
                Ok(())
            } else {
                Err(mismatch("int over .le limit"))''')],
         'int .le with a limit or value of 2^63 or more', 'int .le wraps around at 2^63', [('t = int .le 18446744073709551615', 't', '5', 'ok')])
    seed('c12-nul', 'C12', [(V, '            let len_u: u64 = s.len() as u64;', '            let len_u: u64 = s.trim_end_matches(\'\\0\').len() as u64;')],
         'text that ends with NUL characters', 'trailing NUL characters do not count for .size', [('t = tstr .size 1', 't', '"a\\u0000"', 'mismatch')])
    seed('c13-recursion', 'C13', [(V, 'ciborium::from_reader(bytes.as_slice())', 'ciborium::de::from_reader_with_recursion_limit(bytes.as_slice(), 16)')],
         'embedded CBOR nested more than sixteen deep', 'deeply nested embedded CBOR is not decoded',
         [('t = bstr .cbor any', 't', [0x55] + [0x81] * 20 + [1], 'ok')])
    seed('c14-multiline', 'C14', [(F, 'let re = RegexBuilder::new(&re_str)', 'let re = RegexBuilder::new(&format!("(?m){}", re_str))')],
         'an anchored pattern and text with line breaks', 'anchors match at line breaks inside the text',
         [('t = tstr .regexp "^a$"', 't', '"b\\na\\nc"', 'mismatch')])
    seed('c14-empty', 'C14', [(V, 'if re.re.is_match(text) {', 'if re.re.find(text).is_some_and(|m| !m.is_empty() || text.is_empty()) {')],
         'a pattern whose leftmost match in the text is empty', 'empty matches do not count', [('t = tstr .regexp "a*"', 't', '"b"', 'ok')])
    seed('c15-nan', 'C15', [(V, '        (PreludeType::Float, Value::Float(_)) => Ok(()),', '        (PreludeType::Float, Value::Float(f)) if !f.0.is_nan() => Ok(()),')],
         'a NaN in CBOR data', 'float rejects NaN', [('t = float', 't', [0xf9, 0x7e, 0], 'ok')])
    seed('c16-bom', 'C16', [('src/json.rs', 'serde_json::from_str(json).map_err', "serde_json::from_str(json.trim_matches('\\u{feff}')).map_err")],
         'JSON text that starts with a byte-order mark', 'a byte-order mark around JSON data is ignored', [('t = int', 't', '\ufeff1', 'value')])
    seed('c17-exp', 'C17', [(P, '            opt(one_of("+-")),', '            opt(charx(\'-\')),')],
         'an exponent with a plus sign', 'an exponent may not have a plus sign', [('t = 1e+2', 't', '100.0', 'ok')])
    seed('c18-amp-space', 'C18', [(P, '''        tag("&"),
        preceded(
            ws,
            name_generic
        )''', '''        tag("&"),
        preceded(
            nom::character::complete::space0,
            name_generic
        )''')],
         'a line break or comment after &', 'no line break or comment is allowed after &',
         [('t = & ; the group\ng\ng = (a: 1)', 't', '1', 'ok')])
    seed('c19-nint-min', 'C19', [(P, '    let posint = u64::from_str_radix(raw.slice, raw.base)\n        .map_err(|_| parse_error(ErrorKind::MalformedInteger, raw.slice))?;\n\n    if raw.neg {',
                                  '    let posint = u64::from_str_radix(raw.slice.trim_start_matches("0"), raw.base)\n        .or_else(|_| raw.slice.parse::<u64>())\n        .map_err(|_| parse_error(ErrorKind::MalformedInteger, raw.slice))?;\n\n    if raw.neg {')],
         'a hexadecimal or binary integer of 2^64 or more whose digits are also a decimal number in range', 'an overflowing integer in another base is read as decimal',
         [('t = 0x10000000000000000', 't', '1', 'parse')])
    seed('c20-hexctx', 'C20', [(P, 'hex::decode(&s).map_err(|_| parse_error(ErrorKind::MalformedHex, s))', 'hex::decode(&s).map_err(|_| parse_error(ErrorKind::MalformedHex, s[..s.len().min(16)].to_string()))')],
         'a malformed hex byte string with a multi-byte character around its sixteenth byte', 'building the error message panics',
         [("t = h'0123456789abcde\u00e9'", 't', '1', 'parse')])
    seed('c21-crlf', 'C21', [(P, '                    (r, s.to_string())', '                    (r, s.replace("\\r\\n", "\\n"))')],
         'a schema with CRLF line ends', 'CRLF becomes LF in the source of a rule',
         [], code=r'''
    let r = cddl_cat::parser::slice_parse_cddl("a = [ int,\r\n   tstr ]\r\n").unwrap();
    assert_eq!(r.rules[0].1, "a = [ int,\r\n   tstr ]");
''')
    seed('c22-first-def', 'C22', [(F, '    cddl.rules.iter().map(flatten_rule).collect()', '''    let mut rules = RulesByName::new();
    for rule in &cddl.rules {
        let (name, def) = flatten_rule(rule)?;
        // A later definition only replaces one with the same parameters.
        match rules.get(&name) {
            Some(old) if old.generic_parms.len() != def.generic_parms.len() => {}
            _ => {
                rules.insert(name, def);
            }
        }
    }
    Ok(rules)''')],
         'a name defined twice with different numbers of generic parameters', 'a redefinition with other parameters is ignored',
         [('t = g\ng<a> = a\ng = int', 't', '1', 'ok')])
    seed('c23-regex-cache', 'C23', [(F, '''            let re = RegexBuilder::new(&re_str)
                .size_limit(1 << 20)
                .build()
                .map_err(|_| ValidateError::Structural("malformed regexp".into()))?;
''', '''            thread_local!(static CACHE: std::cell::RefCell<std::collections::HashMap<String, regex::Regex>> = Default::default());
            let key = re_str.to_lowercase();
            let re = match CACHE.with(|c| c.borrow().get(&key).cloned()) {
                Some(re) => re,
                None => {
                    let re = RegexBuilder::new(&re_str)
                        .size_limit(1 << 20)
                        .build()
                        .map_err(|_| ValidateError::Structural("malformed regexp".into()))?;
                    CACHE.with(|c| c.borrow_mut().insert(key, re.clone()));
                    re
                }
            };
''')], 'two schemas loaded on one thread with patterns that differ in case only', 'a pattern is replaced by one loaded earlier',
         [('t = tstr .regexp "^a"', 't', '"a"', 'ok'), ('t = tstr .regexp "^A"', 't', '"A"', 'ok')])
    seed('c23-budget', 'C23', [(V, '    fn lookup_rule(&\'a self, rule: &\'a Rule) -> TempResult<NodeContext<\'a>> {\n', '''    fn lookup_rule(&'a self, rule: &'a Rule) -> TempResult<NodeContext<'a>> {
        // Limit the total amount of work.
        static LOOKUPS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        if LOOKUPS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) > 1 << 20 {
            return Err(ValidateError::Structural("too many lookups".into()));
        }
'''), (V, '        let ctx = self.derive(rule_def, rule)?;\n', '        let ctx: Context = self.derive(rule_def, rule)?;\n')],
         'more than a million rule references followed by one process', 'validations fail after a million references in all',
         [], code=r'''
    let rules = cddl_cat::flatten::flatten_from_str("t = [* u]\nu = int").unwrap();
    let ctx = cddl_cat::context::BasicContext::new(rules);
    let data = serde_json::json!([1, 2, 3, 4, 5, 6, 7, 8, 9, 10]);
    for _ in 0..120000 {
        let r = cddl_cat::json::validate_json(ctx.rules.get("t").unwrap(), &data, &ctx);
        assert_eq!(kind(&r), "ok");
    }
''')
    seed('c24-ctx', 'C24', [(V, 'validate_array_unwrap(answer.node, working_array, &answer.ctx)\n        }\n        Node::Choice(c) => {',
                             'validate_array_unwrap(answer.node, working_array, ctx)\n        }\n        Node::Choice(c) => {')],
         '~ of a generic rule in an array', 'the parameters of an unwrapped generic array are unknown inside it',
         [('t = [~g<int>]\ng<a> = [a, a]', 't', '[1, 2]', 'ok')])
    seed('c25-case', 'C25', [(F, '    let result = match name {\n', '    let result = match name.to_ascii_lowercase().as_str() {\n')],
         'a rule whose name is that of a prelude type in another case', 'prelude names are recognised whatever their case',
         [('t = [Int]\nInt = tstr', 't', '["a"]', 'ok')])
    seed('c26-build', 'C26', [(F, '        "cbor" => control_cbor(ctl)?,', '        "cbor" if cfg!(feature = "ciborium") => control_cbor(ctl)?,')],
         'a build with only the JSON feature and a schema that uses .cbor somewhere', 'without CBOR support a schema with .cbor does not build',
         [('t = int / bstr .cbor int', 't', '1', 'ok')], files=['json'])
    seed('c27-first-dup', 'C27', [('src/cbor.rs', '''                let map: Result<MapTree, ValidateError> = m
                    .iter()
''', '''                let map: Result<MapTree, ValidateError> = m
                    .iter()
                    .rev()
'''), ('src/cbor.rs', '                type MapTree = BTreeMap<Value, Value>;\n', '                type MapTree = BTreeMap<Value, Value>; // in key order\n')],
         'a CBOR map with the same key twice', 'the first of several values of a key counts',
         [('t = {a: int}', 't', [0xa2, 0x61, 0x61, 0x61, 0x78, 0x61, 0x61, 1], 'ok')])
    seed('c28-asks', 'C28', [(V, '        let generic_node: Option<&\'a Node> = self.generic_map.map.get(&rule.name).cloned();',
                              '        let generic_node: Option<&\'a Node> = match self.generic_map.map.get(&rule.name) {\n            // A parameter never hides a rule with parameters of its own.\n            Some(_) if !rule.generic_args.is_empty() => None,\n            found => found.cloned(),\n        };')],
         'a generic parameter used with generic arguments of its own, when a rule of that name exists', 'a generic parameter used with arguments is looked up as a rule',
         [('t = g<int>\ng<a> = [a<int>]\na<b> = [b]', 't', '[1]', 'ok')])
    seed('c28-key', 'C28', [(V, """    match node {
        Node::Literal(l) => map_search_literal(l, value_map),
        _ => map_search(node, value_map, after, ctx),""", """    // Literals, also by name, are found directly.
    let literal = match node {
        Node::Literal(l) => Some(l),
        Node::Rule(r) if r.generic_args.is_empty() => match ctx.lookup.lookup_rule(&r.name) {
            Ok(def) => match &def.node {
                Node::Literal(l) => Some(l),
                _ => None,
            },
            Err(_) => None,
        },
        _ => None,
    };
    match literal {
        Some(l) => map_search_literal(l, value_map),
        None => map_search(node, value_map, after, ctx),""")],
         'a generic parameter as map key with the name of a rule that is a literal', 'a generic parameter used as a map key is looked up as a rule',
         [('t = g<tstr>\ng<k> = {k => int}\nk = "z"', 't', '{"a": 1}', 'ok')])
    seed('c29-slash', 'C29', [(P, """        type1
    );
    map(f, Type)
    (input)""", """        type1
    );
    // Usually there is only one type.
    let single = terminated(type1, nom::combinator::not(preceded(ws, tag("/"))));
    alt((map(single, |t| Type(vec![t])), map(f, Type)))
    (input)""")],
         'choices nested in parentheses', 'parsing time doubles with each nested choice',
         [('t = ' + '(' * 36 + 'int' + ' / tstr)' * 36, 't', '1', 'ok')])
    seed('c29-args', 'C29', [(P, '    let f = pair(ident, opt(generic_arg));', """    // Usually there is only one argument.
    let one = map(
        delimited(pair(tag("<"), ws), terminated(type1, ws), tag(">")),
        |t| vec![t]
    );
    let f = pair(ident, opt(alt((one, generic_arg))));""")],
         'nested uses of generic rules with two arguments', 'parsing time doubles with each nested use',
         [('t = ' + 'a<' * 36 + 'int' + ', int>' * 36 + '\na<x, y> = x', 't', '1', 'ok')])

    # --- third round --------------------------------------------------------
    def missing(cddl, rule, data, name):
        return ('    match cddl_cat::validate_json_str(r###"%s"###, r###"%s"###, r###"%s"###) {\n'
                '        Err(ValidateError::MissingRule(n)) => assert_eq!(n, "%s"),\n'
                '        r => panic!("{:?}", r),\n    }\n' % (rule, cddl, data, name))

    def snippet(cddl, kind, ctx):
        return ('    let e = cddl_cat::parse_cddl(r###"%s"###).unwrap_err();\n'
                '    assert_eq!((format!("{:?}", e.kind).as_str(), e.ctx.as_str()), ("%s", r###"%s"###));\n' % (cddl, kind, ctx))
    seed('c30-sigil', 'C30', [('src/context.rs', '            None => Err(ValidateError::MissingRule(name.into())),\n        }\n    }\n}\n\n#[doc(hidden)]',
                               '            None => Err(ValidateError::MissingRule(name.trim_start_matches(\'$\').into())),\n        }\n    }\n}\n\n#[doc(hidden)]')],
         'an undefined socket name', 'the error about an undefined socket names something else',
         code=missing('t = [int, $ext]', 't', '[1, 2]', '$ext'))
    seed('c07-key', 'C07', [(V, '    // We searched all the keys without finding a match.  Validation fails.\n    Err(mismatch(format!("map{{{}}}", node)))',
                             '    // We searched all the keys without finding a match.  Validation fails.\n    match node {\n        Node::Rule(r) if working_map.map.is_empty() => ctx.lookup_rule(r).and_then(|_| Err(mismatch(format!("map{{{}}}", node)))),\n        _ => Err(mismatch(format!("map{{{}}}", node))),\n    }'),
                            ], 'a map whose entries are used up before a member with a named key type that is undefined',
         'an undefined key type is reported although matching does not reach it',
         [('t = {? a: int, * k => int}', 't', '{"a": 1}', 'ok')])
    seed('c30-own-missing', 'C30', [(V, '        let rule_def: &RuleDef = self.lookup.lookup_rule(&rule.name)?;',
                                     '        let rule_def: &RuleDef = self.lookup.lookup_rule(&rule.name).map_err(|e| match e {\n            ValidateError::MissingRule(_) => ValidateError::MissingRule(rule.name.clone()),\n            other => other,\n        })?;')],
         'a caller\'s context that reports a name of its own as missing', 'the name a caller\'s context reports as missing is replaced', code='''
fn main() {
    use cddl_cat::context::*;
    struct C;
    impl LookupContext for C {
        fn lookup_rule<'a>(&'a self, name: &str) -> Result<&'a cddl_cat::ivt::RuleDef, ValidateError> {
            Err(ValidateError::MissingRule(format!("module/{}", name)))
        }
    }
    let rules = cddl_cat::flatten::flatten_from_str("t = [u]").unwrap();
    let v: serde_json::Value = serde_json::from_str("[1]").unwrap();
    match cddl_cat::json::validate_json(&rules["t"], &v, &C) {
        Err(ValidateError::MissingRule(n)) => assert_eq!(n, "module/u"),
        r => panic!("{:?}", r),
    }
}
''')
    seed('c30-first-digits', 'C30', [(P, '        .map_err(|_| parse_error(ErrorKind::MalformedInteger, raw.slice))?;\n\n    if raw.neg {',
                                      '        .map_err(|_| parse_error(ErrorKind::MalformedInteger, &raw.slice[..raw.slice.len().min(24)]))?;\n\n    if raw.neg {')],
         'an integer literal with more than 24 digits', 'only the first digits of an integer that is too large are shown',
         code=snippet('t = 1234567890123456789012345678901', 'MalformedInteger', '1234567890123456789012345678901'))
    seed('c30-slice-ctx', 'C30', [(P, '    let result = all_consuming(cddl_slice)(input)?;\n    Ok(result.1)', '''    let (rest, slices) = cddl_slice(input)?;
    if !rest.is_empty() {
        return Err(ParseError {
            kind: ErrorKind::Unparseable,
            ctx: input.to_string(),
        });
    }
    Ok(slices)''')], 'the slice-preserving parser and a text that breaks off after some rules', 'the slice-preserving parser points at the whole text',
         code='    let a = cddl_cat::parse_cddl("t = int\\nu = ]").unwrap_err();\n    let b = cddl_cat::parser::slice_parse_cddl("t = int\\nu = ]").unwrap_err();\n    assert_eq!(a.ctx, b.ctx);\n')

    def tree(cddl, name, expr):
        return '''
    use cddl_cat::ivt::*;
    let rules = cddl_cat::flatten::flatten_from_str(r###"%s"###).unwrap();
    let def = &rules["%s"];
    let _ = def;
    assert!(%s, "{:?}", def);
''' % (cddl, name, expr)
    seed('c31-merge', 'C31', [(F, '        _ => Ok(Node::Choice(Choice { options })),\n    }\n}\n\nfn flatten_type1(', '''        _ => {
            // A choice in a choice is one choice.
            let mut flat = Vec::with_capacity(options.len());
            for node in options {
                match node {
                    Node::Choice(c) if c.options.len() > 2 => flat.extend(c.options),
                    other => flat.push(other),
                }
            }
            Ok(Node::Choice(Choice { options: flat }))
        }
    }
}

fn flatten_type1(''')], 'a parenthesised choice of three or more types inside a choice', 'nested choices are merged',
         code=tree('t = int / (tstr / bool / nil)', 't', 'matches!(&def.node, Node::Choice(c) if c.options.len() == 2)'))
    seed('c31-parms', 'C31', [(F, '        generic_parms: rule.generic_parms.clone(),', '        generic_parms: {\n            let mut seen = std::collections::BTreeSet::new();\n            rule.generic_parms.iter().filter(|p| seen.insert((*p).clone())).cloned().collect()\n        },')],
         'a rule with the same generic parameter twice', 'a repeated generic parameter is dropped',
         code=tree('t<a, a> = a', 't', 'def.generic_parms.len() == 2'))
    seed('c31-key-cut', 'C31', [(F, '            let cut = key.cut;\n', '            // There is nothing to commit to unless the key is a single value.\n            let cut = key.cut && !matches!(&key.val, ast::MemberKeyVal::Type1(ast::Type1::Range(_)));\n')],
         'a cut after a key that is a range', 'the cut of a member with a range as key is dropped',
         code=tree('t = {1..5 ^ => int}', 't', 'matches!(&def.node, Node::Map(m) if matches!(&m.members[0], Node::KeyValue(kv) if kv.cut))'))
    seed('c31-neg-zero', 'C31', [(F, '        Value::Float(f) => Ok(literal_float(*f)),', '        Value::Float(f) => Ok(literal_float(if *f == 0.0 { 0.0 } else { *f })),')],
         'the literal -0.0', 'the sign of -0.0 is lost',
         code=tree('t = -0.0', 't', 'matches!(&def.node, Node::Literal(Literal::Float(f)) if f.is_sign_negative())'))
    seed('c31-one-occ', 'C31', [(F, '        Some(o) => Node::Occur(Occur::new(o.clone(), node)),', '        Some(o) if *o != ast::Occur::Numbered(1, 1) => Node::Occur(Occur::new(o.clone(), node)),'), (F, '        None => node,\n', '        _ => node,\n')],
         'the occurrence 1*1', 'the occurrence 1*1 has no node',
         code=tree('t = [1*1 int]', 't', 'matches!(&def.node, Node::Array(a) if matches!(&a.members[0], Node::Occur(_)))'))
    seed('c01-key-unwrap', 'C01', [(V, '            validate_array_value(&kv.value, working_array, ctx)\n', '''            match (kv.key.as_ref(), kv.value.as_ref()) {
                // The key only documents the element, which may still be absent.
                (Node::Literal(_), Node::PreludeType(PreludeType::Nil)) if working_array.peek_front().is_none() => Ok(()),
                _ => validate_array_value(&kv.value, working_array, ctx),
            }
''')], 'an array that ends before a keyed member of type nil', 'a keyed nil at the end of an array may be missing',
         [('t = [a: int, b: nil]', 't', '[1]', 'mismatch')])
    seed('c02-num-key', 'C02', [(V, '    match working_map.peek_at(&search_key) {\n        Some(val) => Ok((search_key, val)),', '''    // JSON can only have text keys.
    let as_text = Value::Text(literal.to_string());
    let search_key = match literal {
        Literal::Int(_) if working_map.peek_at(&search_key).is_none() && working_map.peek_at(&as_text).is_some() => as_text,
        _ => search_key,
    };
    match working_map.map.get(&search_key) {
        Some(val) => Ok((search_key, val)),''')], 'an integer key in the schema and a text key with the same digits in the data', 'an integer key matches a text key',
         [('t = {1 => int}', 't', '{"1": 5}', 'mismatch')])
    seed('c04-u16', 'C04', [('src/ivt.rs', '            OccurLimit::Numbered(n, m) => (n, m),', '            OccurLimit::Numbered(n, m) => (n as u16 as usize, if m == usize::MAX { m } else { m as u16 as usize }),')],
         'an occurrence limit of 65536 or more', 'occurrence limits wrap around at 65536',
         [('t = [*65536 int]', 't', '[1]', 'ok')])
    seed('c05-typed-cut', 'C05', [(V, '                (true, ValidateError::Mismatch(m)) => {', '                (true, ValidateError::Mismatch(m)) if !matches!(**key_node, Node::Range(_) | Node::Control(_)) => {')],
         'a cut member whose key is a range or control', 'a cut after a key given by a range or control does not commit',
         [('t = {? (1..5 ^ => int), * any => any}', 't', '{}', 'ok')], code="    cbor(\"t\", \"t = {? 1..5 ^ => int, * any => any}\", &[0xa1, 0x01, 0x61, 0x61], \"mismatch\");\n")
    seed('c07-map-generic', 'C07', [(V, '''            Err(e) => {
                if e.is_mismatch() {
                    // Stop trying to match this occurrence.
                    break;
                }
                // Either we got a MapCut error''', '''            Err(e) => {
                if e.is_mismatch() || (count >= lower_limit && matches!(e, ValidateError::Structural(_))) {
                    // Stop trying to match this occurrence.
                    break;
                }
                // Either we got a MapCut error''')],
         'a structural fault inside an optional map member', 'a structural fault in an optional map member is taken for a mismatch',
         [('t = {? a: 1.."x", * tstr => any}', 't', '{"a": 1}', 'structural')])
    seed('c08-skip-capture', 'C08', [(V, '        let generic_map = GenericMap {\n            map,\n            past_ctx: Some(self),\n        };', '''        // The arguments only depend on this context if they use names.
        let uses_names = rule.generic_args.iter().any(|a| matches!(a, Node::Rule(_) | Node::Choice(_)));
        let generic_map = GenericMap {
            map,
            past_ctx: if uses_names { Some(self) } else { None },
        };''')], 'an argument that is an array or map containing a parameter of the place of use', 'parameters inside a structured argument are unknown',
         [('t = g<int>\ng<a> = h<[a]>\nh<b> = b', 't', '[1]', 'ok')])
    seed('c09-range-loop', 'C09', [(V, '''            let answer = ctx.lookup_rule(r)?;
            deref_range_rule(answer.node, &answer.ctx)
''', '''            // A plain name costs nothing.
            if r.generic_args.is_empty() && !ctx.generic_map.map.contains_key(&r.name) {
                deref_range_rule(&ctx.lookup.lookup_rule(&r.name)?.node, ctx)
            } else {
                let answer = ctx.lookup_rule(r)?;
                deref_range_rule(answer.node, &answer.ctx)
            }
''')], 'a range endpoint that names itself', 'a recursive range endpoint never ends',
         [('t = 1..a\na = a', 't', '1', 'structural')])
    seed('c10-nan', 'C10', [(V, '''    if value < start {
        return false;
    }
    if inclusive {
        value <= end''', '''    if value < start {
        return false;
    }
    if inclusive {
        !(value > end)''')], 'NaN as data for an inclusive range of floats', 'NaN lies in every inclusive range',
         [('t = 0.0..1.0', 't', [0xf9, 0x7e, 0x00], 'mismatch')])
    seed('c13-empty', 'C13', [(V, '        Value::Bytes(bytes) => {\n            let cbor_value', '        // Nothing is no item.\n        Value::Bytes(bytes) if !bytes.is_empty() => {\n            let cbor_value')],
         'the empty byte string under .cbor', 'an empty byte string is a mismatch, not a value error',
         [('t = bstr .cbor int', 't', [0x40], 'value')])
    seed('c14-dotall', 'C14', [(F, '            let re = RegexBuilder::new(&re_str)\n', '            // A line end is no end of the text.\n            let re = RegexBuilder::new(&re_str.replace(".*", "(?s:.*)"))\n')],
         'a pattern with .* and text with a line break', 'a repeated dot matches line breaks',
         [('t = tstr .regexp "^a.*b$"', 't', '"a\\nb"', 'mismatch')])
    seed('c15-eps', 'C15', [(V, '    if *value == Value::from(literal) {\n        return Ok(());\n    }', '    match (literal, value) {\n        (Literal::Float(a), Value::Float(b)) if *a != 0.0 && (a - b.0).abs() < a.abs() * f64::EPSILON => return Ok(()),\n        _ if *value == Value::from(literal) => return Ok(()),\n        _ => (),\n    }')],
         'a float that differs from the literal in the last place', 'floats equal to the last place but one are taken for equal',
         [('t = 1.9999999999999998', 't', '2.0', 'mismatch')])
    seed('c16-bom', 'C16', [('src/cbor.rs', '            CBOR_Value::Text(t) => Value::Text(t.clone()),', '            CBOR_Value::Text(t) => Value::Text(t.strip_prefix(\'\\u{feff}\').unwrap_or(t).to_string()),')],
         'a CBOR text that begins with a byte order mark', 'a byte order mark is taken off texts in CBOR but not in JSON',
         [('t = tstr .size 1', 't', [0x64, 0xef, 0xbb, 0xbf, 0x61], 'mismatch')])
    seed('c20-ctx-cut', 'C20', [('src/parser/parse_err.rs', '            // Create an owned String from the Cow<\'_, str>\n            ctx: err.ctx.into(),', '            // Create an owned String from the Cow<\'_, str>; keep it short.\n            ctx: err.ctx[..err.ctx.len().min(200)].into(),')],
         'a parse error more than 200 bytes before the end of a text with characters that are not ASCII', 'the snippet is cut inside a character',
         [('t = ] ; ' + 'x' * 192 + '\u00e9', 't', '1', 'parse'), ('t = ] ; ' + 'x' * 193 + '\u00e9' * 5, 't', '1', 'parse'), ('t = ] ; ' + 'x' * 194 + '\u00e9' * 5, 't', '1', 'parse')])
    seed('c21-comment', 'C21', [(P, '                    (r, s.to_string())', '                    (r, s.split("; ").next().map_or(s, |h| if s.contains(\'"\') { s } else if h.contains(\'\\n\') { h } else { s }).to_string())')],
         'a comment inside a rule after its first line', 'the source of a rule ends at a comment inside it',
         code='    let s = cddl_cat::parser::slice_parse_cddl("t = [\\n int ; x\\n]").unwrap();\n    assert_eq!(s.rules[0].1, "t = [\\n int ; x\\n]");\n')
    seed('c22-paren-ctl', 'C22', [(F, '    let target = flatten_type2(&ctl.target)?;\n    let ge = flatten_type2(&ctl.arg)?;', '    let target = match &ctl.target {\n        ast::Type2::Parethesized(_) => return Err(ValidateError::Unsupported(".ge target type".into())),\n        other => flatten_type2(other)?,\n    };\n    let ge = flatten_type2(&ctl.arg)?;')],
         'the target of .ge in parentheses', 'parentheses around the target of .ge are not supported',
         [('t = (int) .ge 5', 't', '6', 'ok')])
    seed('c23-global-depth', 'C23', [(V, '    let node = &rule_def.node;\n    validate(value, node, &ctx)\n}', '''    let node = &rule_def.node;
    // Keep the load bounded.
    static ACTIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let order = std::sync::atomic::Ordering::SeqCst;
    if ACTIVE.fetch_add(1, order) >= 3 {
        ACTIVE.fetch_sub(1, order);
        return Err(ValidateError::Structural("too many validations".into()));
    }
    let result = validate(value, node, &ctx);
    ACTIVE.fetch_sub(1, order);
    result
}''')], 'more than three validations at the same time', 'a fourth validation at the same time fails', code='''
fn main() {
    let cddl = "t = [* (int, int // int, tstr // int)]";
    let data = format!("[{}]", vec!["1"; 20001].join(","));
    let hs: Vec<_> = (0..8).map(|_| { let d = data.clone(); std::thread::spawn(move || for _ in 0..20 { json("t", cddl, &d, "ok"); }) }).collect();
    for h in hs { h.join().unwrap(); }
}
''')
    seed('c24-name-chain', 'C24', [(V, '''            let answer = ctx.lookup_rule(r)?;
            validate_map_unwrap(answer.node, working_map, &answer.ctx)
        }
        Node::Group''', '''            match ctx.lookup_rule(r)? {
                NodeContext { node: Node::Map(m), .. } if m.members.is_empty() && !working_map.map.is_empty() => Err(mismatch("empty map")),
                answer => validate_map_unwrap(answer.node, working_map, &answer.ctx),
            }
        }
        Node::Group''')],
         '~ of an empty map next to other members', 'unwrapping an empty map fails when there are entries',
         [('t = {~e, * tstr => any}\ne = {}', 't', '{"a": 1}', 'ok')])
    seed('c25-number', 'C25', [(F, '        "bigint" | "integer" | "unsigned" | "number" => return unsupported(name),', '        "bigint" | "integer" | "unsigned" => return unsupported(name),')],
         'a rule named number', 'number is taken for the name of a rule',
         [('t = number\nnumber = int', 't', '1', 'unsupported')])
    seed('c26-depth', 'C26', [(V, '    const MAX_DEPTH: u32 = 50;', '    const MAX_DEPTH: u32 = if cfg!(feature = "ciborium") { 50 } else { 49 };')],
         'a build without CBOR support and 50 nested rule references', 'one reference fewer is followed without CBOR support',
         [('\n'.join('r%d = r%d' % (i, i + 1) for i in range(50)) + '\nr50 = int', 'r0', '1', 'ok')], files=['json'])
    seed('c27-float-keys', 'C27', [('src/cbor.rs', '                        Ok((Value::try_from(k)?, Value::try_from(v)?))', '                        // Whole numbers are integers, however they are written.\n                        let key = match k {\n                            CBOR_Value::Float(f) if f.fract() == 0.0 && f.abs() < 1e9 => Value::Integer(*f as i128),\n                            k => Value::try_from(k)?,\n                        };\n                        Ok((key, Value::try_from(v)?))')],
         'a CBOR map with a whole floating-point number as key', 'whole floating-point keys become integers',
         [('t = {1.0 => int}', 't', [0xa1, 0xf9, 0x3c, 0x00, 0x01], 'ok')])
    seed('c28-range-parm', 'C28', [(V, '''            let answer = ctx.lookup_rule(r)?;
            deref_range_rule(answer.node, &answer.ctx)''', '''            // Prefer a literal of that name.
            match ctx.lookup.lookup_rule(&r.name) {
                Ok(RuleDef { node: Node::Literal(l), .. }) => Ok(l.clone()),
                _ => {
                    let answer = ctx.lookup_rule(r)?;
                    deref_range_rule(answer.node, &answer.ctx)
                }
            }''')],
         'a generic parameter as range endpoint with the name of a rule that is a literal', 'a generic parameter used as range endpoint is looked up as a rule',
         [('t = g<5>\ng<hi> = 1..hi\nhi = 3', 't', '4', 'ok')])
    seed('c29-amp', 'C29', [(P, '        map(type2_choiceify_inline, Type2::ChoiceifyInline),\n', '        map(alt((terminated(type2_choiceify_inline, peek(preceded(ws, one_of(",/)]}>")))), type2_choiceify_inline)), Type2::ChoiceifyInline),\n')],
         'nested & groups, each followed by something other than a bracket or separator', 'parsing time doubles with each nested &',
         [('t = ' + '&(a: ' * 30 + 'int' + ' .. 1)' * 30, 't', '1', 'structural')])
    # Trees made without the parser.
    hand = '''
use cddl_cat::{context::BasicContext, ivt::*, json::validate_json};
fn check(node: Node, data: &str, want: &str) {
    let def = RuleDef { generic_parms: vec![], node };
    let rules: RulesByName = vec![("t".to_string(), def)].into_iter().collect();
    let ctx = BasicContext::new(rules);
    let value: serde_json::Value = serde_json::from_str(data).unwrap();
    let got = validate_json(&ctx.rules["t"], &value, &ctx);
    assert!(kind(&got) == want, "{:?} {}: expected {}, got {:?}", ctx.rules["t"], data, want, got);
}
fn int() -> Node { Node::PreludeType(PreludeType::Int) }
fn choice(options: Vec<Node>) -> Node { Node::Choice(Choice { options }) }
fn occur(limit: OccurLimit, node: Node) -> Node { Node::Occur(Occur { limit, node: Box::new(node) }) }
'''
    seed('c32-empty-choice', 'C32', [(V, '''            for option in &c.options {
                match validate_array_member(option, working_array, ctx) {
                    Ok(()) => {
                        return Ok(());
                    }
                    Err(e) => {
                        // Only fail if the error is considered fatal.
                        // Otherwise, we'll keep trying other options.
                        if e.is_fatal() {
                            return Err(e);
                        }
                    }
                }
            }
            // None of the choices worked.
            let expected = format!("choice of {}", c.options.len());
            Err(mismatch(expected))''', '''            let mut result = Ok(());
            for option in &c.options {
                result = validate_array_member(option, working_array, ctx);
                match &result {
                    Ok(()) => break,
                    // Only fail if the error is considered fatal.
                    // Otherwise, we'll keep trying other options.
                    Err(e) if e.is_fatal() => break,
                    Err(_) => {}
                }
            }
            // Report what was wrong with the last of the choices.
            result''')],
         'a choice without options as member of an array, in a tree made by hand', 'a choice without options matches',
         code=hand + 'fn main() { check(Node::Array(Array { members: vec![choice(vec![]), int()] }), "[1]", "mismatch"); check(Node::Array(Array { members: vec![choice(vec![int()])] }), "[1]", "ok"); }\n')
    seed('c32-nested-occur', 'C32', [(V, '    let (lower_limit, upper_limit) = occur.limits();\n    let mut count: usize = 0;\n\n    // If we fail to reach the lower limit, the elements that matched so far\n    // must be put back.\n    working_array.snapshot();', '    let (lower_limit, upper_limit) = occur.limits();\n    let mut count: usize = 0;\n    // Nothing is gained by an occurrence of an occurrence.\n    let mut node = &*occur.node;\n    while let Node::Occur(inner) = node {\n        node = &inner.node;\n    }\n\n    // If we fail to reach the lower limit, the elements that matched so far\n    // must be put back.\n    working_array.snapshot();'),
         (V, 'match validate_array_member(&occur.node, working_array, ctx) {', 'match validate_array_member(node, working_array, ctx) {')],
         'an occurrence directly inside an occurrence, in a tree made by hand', 'the limits of the inner occurrence are ignored',
         code=hand + 'fn main() { check(Node::Array(Array { members: vec![occur(OccurLimit::Numbered(2, 2), occur(OccurLimit::Numbered(2, 2), int()))] }), "[1,2,3,4]", "ok"); }\n')
    seed('c32-choice-target', 'C32', [(V, '''        chase_rules(answer.node, &answer.ctx, f)
    } else {''', '''        chase_rules(answer.node, &answer.ctx, f)
    } else if let Node::Choice(Choice { options }) = node {
        // A choice with one option is that option.
        match options.as_slice() {
            [only] => chase_rules(only, ctx, f),
            _ => f(node),
        }
    } else {''')],
         'a choice with one option as target or limit of a control, in a tree made by hand', 'a choice with one option is taken as limit of .lt',
         code=hand + 'fn main() { check(Node::Control(Control::Lt(CtlOpLt { target: Box::new(choice(vec![int()])), lt: Box::new(Node::Literal(Literal::Int(5))) })), "3", "structural"); }\n')
    seed('c32-map-literal', 'C32', [(V, '        Node::Literal(_) => Err(ValidateError::Structural("literal map member".into())),', '''        Node::Literal(Literal::Text(t)) => {
            // A key with any value.
            let key = Value::Text(t.clone());
            if working_map.peek_at(&key).is_none() {
                return Err(mismatch(format!("map{{{}}}", t)));
            }
            working_map.remove(&key);
            Ok(())
        }
        Node::Literal(_) => Err(ValidateError::Structural("literal map member".into())),''')],
         'a text as member of a map and an entry with that key', 'a text without value as member of a map matches an entry',
         [('t = {"a"}', 't', '{"a": 1}', 'structural')])
    tree = '''
use cddl_cat::{ast, context::BasicContext, flatten::*, ivt::*, json::validate_json};
fn rule(val: ast::RuleVal) -> ast::Rule { ast::Rule { name: "t".into(), generic_parms: vec![], val } }
fn cddl(val: ast::RuleVal) -> ast::Cddl { ast::Cddl { rules: vec![rule(val)] } }
fn simple(t: ast::Type2) -> ast::Type { ast::Type(vec![ast::Type1::Simple(t)]) }
'''
    seed('c33-no-alternatives', 'C33', [(F, '''    match options.len() {
        0 => Err(ValidateError::Unsupported(
            "flatten type with 0 options".into(),
        )),
        1 =>''', '''    match options.len() {
        1 =>''')],
         'a type without alternatives, in a syntax tree made by hand', 'a type without alternatives becomes a choice without options',
         code=tree + 'fn main() { let r = flatten(&cddl(ast::RuleVal::AssignType(ast::Type(vec![])))).map(|_| ()); assert!(kind(&r) == "unsupported", "{:?}", r); }\n')
    seed('c33-nint', 'C33', [(F, '''            let value = num_to_i128(*n)?;
            Ok(literal_int(value))
        }
        Value::Float''', '''            // Nint always stands for a negative number.
            let value = num_to_i128(*n)?;
            Ok(literal_int(if value > 0 { -value } else { value }))
        }
        Value::Float''')],
         'a syntax tree made by hand with a number above 0 as Nint', 'the number is negated',
         code=tree + 'fn main() { let r = flatten(&cddl(ast::RuleVal::AssignType(simple(ast::Type2::Value(ast::Value::Nint(3)))))).unwrap(); assert_eq!(r["t"].node, Node::Literal(Literal::Int(3))); }\n')
    seed('c33-slice-trim', 'C33', [(F, '            Ok((name, (flat, s.clone())))', '            Ok((name, (flat, s.trim_end().to_string())))')],
         'slice_flatten of a slice that ends with blanks', 'the source of a rule is trimmed',
         code=tree + 'fn main() { let s = ast::CddlSlice { rules: vec![(rule(ast::RuleVal::AssignType(simple(ast::Type2::Value(ast::Value::Uint(3))))), "t = 3 \\n".into())] }; let r = slice_flatten(&s).unwrap(); assert_eq!(r["t"].1, "t = 3 \\n"); }\n')
    seed('c33-empty-group', 'C33', [(F, '''    if group_choices.len() == 1 {
        let groupchoice = &group_choices[0];
        flatten_groupchoice(groupchoice)
    } else {''', '''    if group_choices.len() < 2 {
        group_choices
            .first()
            .map_or_else(|| Ok(Vec::new()), flatten_groupchoice)
    } else {''')],
         'a group without alternatives, in a syntax tree made by hand', 'a group without alternatives becomes an empty group, which matches',
         code=tree + 'fn main() { let r = flatten(&cddl(ast::RuleVal::AssignType(simple(ast::Type2::Array(ast::Group(vec![])))))).unwrap(); let ctx = BasicContext::new(r); let got = validate_json(&ctx.rules["t"], &serde_json::json!([]), &ctx); assert!(kind(&got) == "mismatch", "{:?}", got); }\n')
    seed('c34-owned-float', 'C34', [('src/json.rs', '''        Value::try_from(&value)
''', '''        match value {
            JSON_Value::Array(a) => a
                .into_iter()
                .map(|x| match x.as_f64() {
                    // Large numbers have no fractional part.
                    Some(f) if x.is_f64() && f.abs() >= 9007199254740992.0 => Ok(Value::Integer(f as i128)),
                    _ => Value::try_from(x),
                })
                .collect::<Result<_, _>>()
                .map(Value::Array),
            other => Value::try_from(&other),
        }
''')],
         'a JSON array with a float beyond 2^53, converted by value', 'the value differs from that of the same tree converted by reference', code='''
fn main() {
    use std::convert::TryFrom;
    use cddl_cat::value::Value;
    let v: serde_json::Value = serde_json::from_str("[0.5, 1e20]").unwrap();
    let by_ref = Value::try_from(&v).unwrap();
    assert_eq!(by_ref, Value::try_from(v).unwrap());
}
''')
    seed('c34-owned-map', 'C34', [('src/json.rs', '''        Value::try_from(&value)
''', '''        match value {
            JSON_Value::Object(m) => {
                // The entries are in order already.
                let mut map = BTreeMap::new();
                for (k, v) in m {
                    // There is no need to keep what says nothing.
                    if !(v.is_null() && map.len() > 2) {
                        map.insert(Value::Text(k), Value::try_from(v)?);
                    }
                }
                Ok(Value::Map(map))
            }
            other => Value::try_from(&other),
        }
''')],
         'a JSON object given as a tree whose fourth or later entry is null, converted by value', 'null entries after the third are lost', code='''
fn main() {
    json("t", "t = {* tstr => int, * tstr => null}", r#"{"a":1,"b":1,"c":1,"d":null}"#, "ok");
    use std::convert::TryFrom;
    use cddl_cat::value::Value;
    let v: serde_json::Value = serde_json::from_str(r#"{"a":1,"b":1,"c":1,"d":null}"#).unwrap();
    let by_ref = Value::try_from(&v).unwrap();
    assert_eq!(by_ref, Value::try_from(v).unwrap());
}
''')
    seed('c34-ref-tag', 'C34', [('src/cbor.rs', '''pub fn validate_cbor(
    rule_def: &RuleDef,
    value: &CBOR_Value,
    ctx: &dyn LookupContext,
) -> ValidateResult {
''', '''pub fn validate_cbor(
    rule_def: &RuleDef,
    value: &CBOR_Value,
    ctx: &dyn LookupContext,
) -> ValidateResult {
    // Look through the tag that only says "this is CBOR".
    let value = match value {
        CBOR_Value::Tag(55799, inner) => inner,
        other => other,
    };
''')],
         'a CBOR document given as a tree with tag 55799 on top', 'a tree with that tag is accepted, the same bytes are not', code='''
fn main() {
    use cddl_cat::{cbor::validate_cbor, context::BasicContext, flatten::flatten_from_str};
    let ctx = BasicContext::new(flatten_from_str("t = int").unwrap());
    let v = ciborium::Value::Tag(55799, Box::new(ciborium::Value::from(1)));
    let got = validate_cbor(&ctx.rules["t"], &v, &ctx);
    assert!(kind(&got) == "value", "{:?}", got);
    cbor("t", "t = int", &[0xd9, 0xd9, 0xf7, 1], "value");
}
''')
    I = 'src/ivt.rs'
    ORDER = ('src/value.rs', '#[derive(Clone, Eq, Ord, PartialEq, PartialOrd)]\n#[allow(missing_docs)]\npub enum Value {')
    AFTER = ('src/value.rs', '// FloatOrd doesn\'t implement Debug, so we have')

    def ordered(body):
        return [(*ORDER, '#[derive(Clone, Eq, PartialEq)]\n#[allow(missing_docs)]\npub enum Value {'),
                (*AFTER, """impl PartialOrd for Value {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Value {
    // The kinds in their order.
    fn rank(&self) -> u8 {
        match self {
            Value::Null => 0,
            Value::Bool(_) => 1,
            Value::Integer(_) => 2,
            Value::Float(_) => 3,
            Value::Bytes(_) => 4,
            Value::Text(_) => 5,
            Value::Array(_) => 6,
            Value::Map(_) => 7,
        }
    }
}

impl Ord for Value {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        match (self, other) {
            (Value::Bool(a), Value::Bool(b)) => a.cmp(b),
%s
            _ => self.rank().cmp(&other.rank()),
        }
    }
}

// FloatOrd doesn't implement Debug, so we have""" % body.strip('\n'))]

    INTS = '            (Value::Integer(a), Value::Integer(b)) => a.cmp(b),\n'
    FLOATS = '            (Value::Float(a), Value::Float(b)) => a.cmp(b),\n'
    STRS = '            (Value::Bytes(a), Value::Bytes(b)) => a.cmp(b),\n            (Value::Text(a), Value::Text(b)) => a.cmp(b),\n'
    ARRS = '            (Value::Array(a), Value::Array(b)) => a.cmp(b),\n'
    MAPS = '            (Value::Map(a), Value::Map(b)) => a.cmp(b),\n'
    seed('c35-int-wide', 'C35', ordered("""
            (Value::Integer(a), Value::Integer(b)) => (a.wrapping_sub(*b) as i64).cmp(&0),
""" + FLOATS + STRS + ARRS + MAPS),
         'two integers at least 2^63 apart', 'integers that far apart compare the wrong way round, or as equal keys', code="""
fn main() {
    use cddl_cat::value::Value;
    let (a, b) = (Value::Integer(-1), Value::Integer(u64::MAX as i128));
    assert!(a < b && a != b && a.cmp(&b) != std::cmp::Ordering::Equal);
}
""")
    seed('c35-map-size', 'C35', ordered(INTS + FLOATS + STRS + ARRS + """
            // The keys first, which is cheap; then what they lead to.
            (Value::Map(a), Value::Map(b)) => a.keys().cmp(b.keys()).then_with(|| a.values().cmp(b.values())),
"""),
         'two maps that differ first in a value and later in a key, or in size', 'maps are ordered by all keys before any value', code="""
fn main() {
    use cddl_cat::value::Value;
    let m = |e: &[(i128, i128)]| Value::Map(e.iter().map(|(k, v)| (Value::Integer(*k), Value::Integer(*v))).collect());
    assert!(m(&[(1, 2), (2, 1)]) > m(&[(1, 1), (3, 1)]));
}
""")
    seed('c35-array-short', 'C35', ordered(INTS + FLOATS + STRS + """
            // Shorter ones first, item by item when equally long.
            (Value::Array(a), Value::Array(b)) => a.len().cmp(&b.len()).then_with(|| a.cmp(b)),
""" + MAPS),
         'two arrays, the shorter one with the larger first item', 'arrays are ordered by length first', code="""
fn main() {
    use cddl_cat::value::Value;
    let a = Value::Array(vec![Value::Integer(2)]);
    let b = Value::Array(vec![Value::Integer(1), Value::Integer(1)]);
    assert!(a > b);
}
""")
    seed('c35-zero', 'C35', [('src/value.rs', 'Value::Float(FloatOrd(f.into()))', 'Value::Float(FloatOrd(f.into() + 0.0))')],
         'a document with -0.0', '-0.0 is converted to 0.0, and the two are one value', code="""
fn main() {
    use std::convert::TryFrom;
    use cddl_cat::value::Value;
    let a = Value::try_from(&ciborium::Value::Float(-0.0)).unwrap();
    let b = Value::try_from(&ciborium::Value::Float(0.0)).unwrap();
    assert!(a < b && a != b);
}
""")
    seed('c35-nan-key', 'C35', ordered(INTS + """
            (Value::Float(a), Value::Float(b)) => a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal).then_with(|| {
                a.0.is_sign_positive().cmp(&b.0.is_sign_positive())
            }),
""" + STRS + ARRS + MAPS),
         'NaN compared with a number', 'NaN compares as equal to every number of its sign though it is not', code="""
fn main() {
    use std::convert::TryFrom;
    use cddl_cat::value::Value;
    let f = |x: f64| Value::try_from(&ciborium::Value::Float(x)).unwrap();
    assert!(f(f64::INFINITY) < f(f64::NAN));
    assert!(f(-0.0) < f(0.0) && f(1.0) < f(2.0));
}
""")
    seed('c36-limits', 'C36', [(I, '            OccurLimit::Numbered(n, m) => (n, m),\n        }', '            // The limits in order.\n            OccurLimit::Numbered(n, m) => (n.min(m), n.max(m)),\n        }')],
         'an occurrence written with the larger limit first', 'the limits of 3*2 are told as 2 and 3', code="""
fn main() {
    use cddl_cat::ivt::*;
    let o = Occur::new(OccurLimit::Numbered(3, 2), literal_int(1));
    assert_eq!(o.limits(), (3, 2));
}
""")
    seed('c36-symbol', 'C36', [(I, """            OccurLimit::Numbered(n, m) => match (n, m) {
                (0, std::usize::MAX) => format!("{}*", n),
""", """            OccurLimit::Numbered(n, m) => match (n, m) {
                (0, std::usize::MAX) => format!("{}*", n),
                (0, 1) => "?".into(),
                (0 | 1, 0) => "*0".into(),
""")],
         'the occurrence 1*0', 'its symbol says that none is allowed, its limits that nothing is', code="""
fn main() {
    use cddl_cat::ivt::*;
    let o = Occur::new(OccurLimit::Numbered(1, 0), literal_int(1));
    assert_eq!(o.limits(), (1, 0));
    assert_eq!(o.symbol(), "1*0");
}
""")
    seed('c36-cut', 'C36', [(I, '#[derive(Clone, PartialEq)]\n#[allow(missing_docs)]\npub struct KeyValue {', """impl PartialEq for KeyValue {
    fn eq(&self, other: &Self) -> bool {
        self.key == other.key && self.value == other.value && (self.cut == other.cut || !matches!(*self.key, Node::Literal(_)))
    }
}

#[derive(Clone)]
#[allow(missing_docs)]
pub struct KeyValue {""")],
         'two members with a key that is no literal, with and without cut', 'they are said to be equal', code="""
fn main() {
    use cddl_cat::ivt::*;
    let m = |cut| Node::KeyValue(KeyValue::new(Node::PreludeType(PreludeType::Tstr), literal_int(1), cut));
    assert!(m(true) != m(false));
}
""")
    seed('c36-size-range', 'C36', [('src/normalize.rs', 'Ok(r.clone())', """// A range of one is that one.
            Ok(Range {
                inclusive: r.inclusive || start_i == end_i,
                ..r.clone()
            })""")],
         'a .size limit that is an exclusive range of equal ends', 'a range without members becomes one with a member', code="""
fn main() {
    use cddl_cat::{ivt::*, normalize::normalize_size_range};
    let r = Range { start: Box::new(literal_int(2)), end: Box::new(literal_int(2)), inclusive: false };
    assert_eq!(normalize_size_range(&Node::Range(r.clone())).unwrap(), r);
}
""")
    seed('c36-range-shown', 'C36', [(I, 'let op = if self.inclusive { ".." } else { "..." };', 'let op = if self.inclusive || self.start == self.end { ".." } else { "..." };')],
         'an exclusive range of equal ends', 'it shows as the inclusive one, which has a member', code="""
fn main() {
    use cddl_cat::ivt::*;
    let r = |inclusive| Range { start: Box::new(literal_int(1)), end: Box::new(literal_int(1)), inclusive };
    assert_eq!(r(false).to_string(), "1...1");
    assert_eq!(r(true).to_string(), "1..1");
}
""")
    seed('c36-float-shown', 'C36', [(I, 'Literal::Float(fl) => write!(f, "{}", fl),', 'Literal::Float(fl) => match *fl {\n                // Not with three hundred digits.\n                big if big.is_finite() && big.abs() >= 1e17 => write!(f, "{:.0}", (big / 1e3).trunc() * 1e3),\n                fl => write!(f, "{}", fl),\n            },')],
         'a float literal of at least 1e17', 'it shows as another number', code="""
fn main() {
    use cddl_cat::ivt::*;
    for x in [1.5, 1e17, 1.2345678901234567e19, 3.3e21, 7.7e40, 123456789012345680.0] {
        assert_eq!(literal_float(x).to_string().parse::<f64>().unwrap(), x);
    }
}
""")
    seed('c36-regexp-eq', 'C36', [(I, 'self.re.as_str() == other.re.as_str()', 'self.re.as_str().eq_ignore_ascii_case(other.re.as_str())')],
         'two patterns that differ in the case of a letter', 'nodes with different patterns are said to be equal', code="""
fn main() {
    use cddl_cat::flatten::flatten_from_str;
    let r = flatten_from_str("a = tstr .regexp \\"\\\\\\\\w\\"\nb = tstr .regexp \\"\\\\\\\\W\\"\n").unwrap();
    assert!(r["a"].node != r["b"].node);
    assert!(r["a"].node == r["a"].node.clone());
}
""")
    # only for what is large
    seed('c12-len-u16', 'C12', [(V, '            let len_u: u64 = s.len() as u64;\n\n            if len_u < min_u {\n                return Err(mismatch("tstr under', '            let len_u = u64::from(s.len() as u16);\n\n            if len_u < min_u {\n                return Err(mismatch("tstr under')],
         'a text of at least 65536 bytes', '.size sees only the low sixteen bits of the length', code="""
fn main() {
    let s = "a".repeat(65541);
    json("t", "t = tstr .size 5", &format!("{:?}", s), "mismatch");
    json("t", "t = tstr .size 65541", &format!("{:?}", s), "ok");
    json("t", "t = tstr .size 5", "\\"aaaaa\\"", "ok");
}
""")
    seed('c06-many-options', 'C06', [(V, '    for node in &choice.options {\n        match validate(value, node, ctx) {', '    // More than anyone writes.\n    for node in choice.options.iter().take(1024) {\n        match validate(value, node, ctx) {')],
         'a choice of more than 1024 types', 'types after the 1024th are not tried', code="""
fn main() {
    let all: Vec<String> = (0..2000).map(|i| i.to_string()).collect();
    let cddl = format!("t = {}", all.join(" / "));
    json("t", &cddl, "1999", "ok");
    json("t", &cddl, "2000", "mismatch");
    json("t", &cddl, "3", "ok");
}
""")
    seed('c18-long-comment', 'C18', [(P, """        charx(';'),
        not_line_ending
    )(input)""", """        charx(';'),
        // not_line_ending, of a reasonable length
        nom::bytes::complete::take_while_m_n(0, 4096, |c: char| c != '\\n' && c != '\\r')
    )(input)""")],
         'a comment of more than 4096 characters', 'what follows in the comment is read as text of the schema', code="""
fn main() {
    json("t", &format!("t = int ;{}\\n", "x".repeat(3000)), "1", "ok");
    json("t", &format!("t = int ;{} x = y z\\n", "x".repeat(5000)), "1", "ok");
}
""")
    seed('c34-many-items', 'C34', [('src/cbor.rs', """            CBOR_Value::Array(a) => {
                let array: Result<_, _> = a.iter().map(Value::try_from).collect();
                Value::Array(array?)
            }
            CBOR_Value::Map(m) => {
                type MapTree""", """            CBOR_Value::Array(a) => {
                // In parts, so that not too much is set aside at once.
                let mut array = Vec::with_capacity(a.len().min(1000));
                if a.len() > 1000 {
                    for part in a.chunks_exact(1000) {
                        for item in part {
                            array.push(Value::try_from(item)?);
                        }
                    }
                } else {
                    for item in a {
                        array.push(Value::try_from(item)?);
                    }
                }
                Value::Array(array)
            }
            CBOR_Value::Map(m) => {
                type MapTree""")],
         'a CBOR array of more than a thousand items', 'the items after the last thousand are lost', code="""
fn main() {
    let mut b = vec![0x99, 0x04, 0x01];
    b.extend(vec![0x01; 1025]);
    cbor("t", "t = [1025*1025 int]", &b, "ok");
    *b.last_mut().unwrap() = 0x60;
    cbor("t", "t = [* int]", &b, "mismatch");
}
""")
    soon = """
fn soon(what: &'static str, f: impl FnOnce() + Send + 'static) {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || { f(); tx.send(()).unwrap(); }).unwrap();
    rx.recv_timeout(std::time::Duration::from_secs(30)).expect(what);
}
fn nest(a: &str, core: &str, b: &str, n: usize) -> String {
    format!("{}{}{}", a.repeat(n), core, b.repeat(n))
}
"""
    seed('c37-one-option', 'C37', [(V, """    let expected = format!("choice of {}", choice.options.len());
    Err(mismatch(expected))
}

/// Validate a `Rule` reference""", """    match choice.options.as_slice() {
        // Between a type and nil, what is wrong with the type is more telling.
        [node, Node::PreludeType(PreludeType::Nil)] => validate(value, node, ctx),
        options => Err(mismatch(format!("choice of {}", options.len()))),
    }
}

/// Validate a `Rule` reference""")],
         'choices of a type and nil around each other, in this order, and data that do not match in the innermost', 'validation time doubles with each level', code=soon + """
fn main() {
    json("t", &format!("t = {}", nest("{a: (", "int", " / nil)}", 6)), &nest("{\\"a\\":", "true", "}", 6), "mismatch");
    soon("quick", || json("t", &format!("t = {}", nest("{a: (", "int", " / nil)}", 36)), &nest("{\\"a\\":", "true", "}", 36), "mismatch"));
    soon("quick", || json("t", &format!("t = {}", nest("{a: (", "int", " / nil)}", 36)), &nest("{\\"a\\":", "1", "}", 36), "ok"));
}
""")
    seed('c37-cut-again', 'C37', [(V, """                (true, ValidateError::Mismatch(m)) => {
                    // If "cut" semantics are in force, then rewrite Mismatch errors.
                    // This allows special handling when nested inside Occur nodes.
                    return Err(ValidateError::MapCut(m));""", """                (true, ValidateError::Mismatch(m)) => {
                    // If "cut" semantics are in force, then rewrite Mismatch errors.
                    // This allows special handling when nested inside Occur nodes.
                    // A map as the value has hidden its own cuts; see what it was about.
                    if let (Node::Map(inner), Value::Map(entries)) = (&**val_node, working_val) {
                        if let Err(ValidateError::Mismatch(m)) = validate_map_part2(inner, entries, ctx) {
                            return Err(ValidateError::MapCut(m));
                        }
                    }
                    return Err(ValidateError::MapCut(m));""")],
         'maps written directly as values of cut members, nested, and a mismatch in the innermost', 'validation time doubles with each level', code=soon + """
fn main() {
    json("t", &format!("t = {}", nest("{a: ", "int", "}", 6)), &nest("{\\"a\\":", "true", "}", 6), "mismatch");
    soon("quick", || json("t", &format!("t = {}", nest("{a: ", "int", "}", 40)), &nest("{\\"a\\":", "true", "}", 40), "mismatch"));
}
""")
    seed('c37-try-first', 'C37', [(V, """                    Err(e) => {
                        // Since we failed to validate the entire group, rewind to our most
                        // recent snapshot.  This may put values back into the array,
                        // so they can be matched by whatever we try next (or trigger
                        // an error if they aren't consumed by anything).
                        working_array.rewind();
                        return Err(e);""", """                    Err(e) => {
                        // Since we failed to validate the entire group, rewind to our most
                        // recent snapshot.  This may put values back into the array,
                        // so they can be matched by whatever we try next (or trigger
                        // an error if they aren't consumed by anything).
                        working_array.rewind();
                        if let (Some(Node::Group(_)), ValidateError::Mismatch(_)) = (g.members.last(), &e) {
                            // Groups at the end of groups: report what the last of them is missing.
                            return validate_array_member(&g.members[g.members.len() - 1], working_array, ctx).and(Err(e));
                        }
                        return Err(e);""")],
         'groups as the last member of groups, nested, and no match', 'validation time doubles with each level', code=soon + """
fn main() {
    json("t", "t = [? (((int))), * any]", "[true]", "ok");
    soon("quick", || json("t", &format!("t = [? {}, * any]", nest("(", "int, int", ")", 40)), "[1, true]", "ok"));
}
""")
    seed('c37-key-again', 'C37', [(V, """            Ok(()) => return Ok((key.clone(), value)),
""", """            // Nodes for keys may be nested containers; literal parts of them first.
            Ok(()) if matches!(key, Value::Array(_)) && validate(key, node, ctx).is_err() => (),
            Ok(()) => return Ok((key.clone(), value)),
""")],
         'maps whose keys are arrays with maps with such keys, and so on', 'validation time doubles with each level', code=soon + """
fn main() {
    let data = |n: usize| { let mut b = vec![0xa1u8, 0x81].repeat(n); b.push(1); b.extend(vec![1u8; n]); b };
    cbor("t", &format!("t = {}", nest("{[", "int", "] => int}", 5)), &data(5), "ok");
    soon("quick", move || cbor("t", &format!("t = {}", nest("{[", "int", "] => int}", 40)), &data(40), "ok"));
}
""")
