"""Planted bugs in the generator itself."""
def G(id, prop, edits, demo, needs, breaks, files=None):
    return {'id': id, 'prop': prop, 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': demo, 'files': files or {}}
S = [
 G('c12-dangling-link', 'C12', [('src/generate.cpp', 'fs::exists(fs::symlink_status(opath))', 'fs::exists(opath)')],
   'echo "int foo(int a);" >$t/in\nln -s $t/target $t/out.h\n! $gen -format=c -out=$t/out.h $t/in 2>/dev/null\n[ ! -e $t/target ]\n',
   'the output name is a dangling symbolic link', 'a file is created through a symbolic link without -force'),
 G('c12-force-link', 'C12', [('src/generate.cpp', '    if (force) {\n        fs::remove(opath);\n    }\n\n    /* check symlink and not its target */\n    if (fs::exists(fs::symlink_status(opath))) {', '    if (force && fs::is_regular_file(opath) && !fs::is_symlink(opath)) {\n        fs::remove(opath);\n    }\n\n    /* check symlink and not its target */\n    if (!force && fs::exists(fs::symlink_status(opath))) {')],
   'echo "int foo(int a);" >$t/in\necho precious >$t/target\nln -s $t/target $t/out.h\n$gen -force -format=c -out=$t/out.h $t/in || true\n[ "$(cat $t/target)" = precious ]\n',
   '-force with an output name that is a symbolic link', 'the target of the link is overwritten instead of the link being replaced'),
 G('c13-error-status', 'C13', [('src/main.cpp', '    catch (const gendlopen::error &e) {\n        std::cerr << utils::progname(argv[0]) << ": error: " << e.what() << std::endl;\n        return 1;', '    catch (const gendlopen::error &e) {\n        std::cerr << utils::progname(argv[0]) << ": error: " << e.what() << std::endl;\n        return std::cerr.good() ? 1 : 0;')],
   'set +e\n$gen $t/none 2>/dev/full; [ $? -ne 0 ] || exit 1\n',
   'an error while standard error cannot be written', 'a failed run ends with status 0'),
 G('c13-both-stdin', 'C13', [('src/tokenize.cpp', 'if (m_input == "-" && m_custom_template == "-") {', 'if (m_input == "-" && m_output == "-" && m_custom_template == "-") {')],
   'set +e\necho "int foo(int a);" | $gen -template=- -out=$t/o - 2>/dev/null; [ $? -ne 0 ] || exit 1\n',
   'input and template both from standard input while the output goes to a file', 'an impossible request succeeds with an empty output'),
 G('c14-cout-state', 'C14', [('src/gendlopen.cpp', "matches  ***/\" << std::endl;", "matches  ***/\\n\";\n    std::cout.flush();\n    std::cout.clear();")],
   'echo "int foo(int a);" >$t/in\nset +e\n$gen -print-symbols $t/in >/dev/full 2>/dev/null; [ $? -ne 0 ] || exit 1\n',
   '-print-symbols while standard output is full', 'exit status 0 although the list was not written'),
 G('c14-body-lost', 'C14', [('src/generate.cpp', '    if (!body_data.empty()) {\n        save::open_ofstream(ofbody, m_force);', '    if (!body_data.empty() && !fs::exists(ofbody)) {\n        save::open_ofstream(ofbody, m_force);')],
   'echo "int foo(int a);" >$t/in\necho old >$t/out.c\n$gen -force -separate -format=c -out=$t/out.h $t/in\ngrep -q foo $t/out.c\n',
   '-force -separate while the body file exists', 'only the header is written and the run succeeds'),
 G('c15-env-date', 'C15', [('src/generate.cpp', '    if (print_date) {\n        struct tm tm = {};', '    if (print_date || ::getenv("SOURCE_DATE_EPOCH")) {\n        struct tm tm = {};')],
   'echo "int foo(int a);" >$t/in\n$gen -no-date -format=c $t/in >$t/a\nSOURCE_DATE_EPOCH=0 $gen -no-date -format=c $t/in >$t/b\ncmp $t/a $t/b\n',
   'SOURCE_DATE_EPOCH in the environment', 'the date is printed although -no-date was given'),
 G('c15-cwd', 'C15', [('src/gendlopen.cpp', 'save::ofs << "#line 1 \\"" << m_custom_template << "\\"\\n";', 'save::ofs << "#line 1 \\"" << std::filesystem::absolute(m_custom_template).string() << "\\"\\n";')],
   'mkdir $t/a $t/b\nfor i in a b; do (cd $t/$i; echo "int foo(int a);" >in; echo "%%symbol%%;" >tpl; $gen -line -no-date -template=tpl in >out); done\ncmp $t/a/out $t/b/out\n',
   '-line with a custom template given by a relative name', 'the output depends on the current directory'),
 G('c16-prefix-anywhere', 'C16', [('src/utils.cpp', '        if (s.starts_with(e)) {\n            return true;', '        if (s.starts_with(e) || (s.front() == \'_\' && s.find(e) == 1)) {\n            return true;')],
   'echo "int h_a(int a); int _h_b(int a);" >$t/in\n$gen -Ph_ -print-symbols $t/in >$t/o\n! grep -q _h_b $t/o\n',
   'a symbol that is a selected prefix with an underscore in front', 'a symbol that was not selected is used'),
 G('c16-prefix-exact', 'C16', [('src/utils.cpp', '        if (s.starts_with(e)) {', '        if (s.size() > e.size() && s.starts_with(e)) {')],
   'echo "int h_a(int a); int h_(int a);" >$t/in\n$gen -Ph_ -print-symbols $t/in >$t/o\ngrep -q "h_(" $t/o\n',
   'a symbol whose name is exactly the selected prefix', 'a selected symbol is left out'),
 G('c17-short-long', 'C17', [('src/opt_parser.h', '    if (_opt_prefix_long && opt[1] == 0 && a->pfxlen != 1) {', '    if (_opt_prefix_long && opt[1] == 0 && a->pfxlen > 2) {')],
   'echo "int foo(int a);" >$t/in\nset +e\n$gen -print-symbols --Sfoo $t/in >/dev/null 2>&1; [ $? -ne 0 ] || exit 1\n',
   'a one-letter option with two dashes', 'an undocumented spelling is accepted'),
 G('c17-option-order', 'C17', [('src/options.cpp', '        } else if (get_option(token, p, "prefix=")) {\n            prefix(p);', '        } else if (get_option(token, p, "prefix=")) {\n            if (m_default_lib.empty()) {\n                prefix(p);\n            }')],
   'printf "%%option library=x prefix=q\\nint foo(int a);\\n" >$t/a\nprintf "%%option prefix=q library=x\\nint foo(int a);\\n" >$t/b\n$gen -no-date -format=c $t/a >$t/ao\n$gen -no-date -format=c $t/b >$t/bo\ncmp $t/ao $t/bo\n',
   '%option library= in front of %option prefix=', 'a setting depends on the order of the options'),
 G('c18-pointer-return', 'C18', [('src/substitute.cpp', '        if (utils::strcasecmp(e.type.c_str(), "void") == 0) {', '        if (e.type.starts_with("void") && (e.type.size() == 4 || e.type[4] == \' \')) {')],
   'echo "void **foo(int a); void *bar(int a);" >$t/in\necho "%%return%% %%func_symbol%%;" >$t/tpl\n$gen -template=$t/tpl $t/in >$t/o\ngrep -q "return foo;" $t/o && grep -q "return bar;" $t/o\n',
   'a function that returns a pointer to void', 'the wrapper of a function with a result does not return it'),
 G('c18-symtype-pointer', 'C18', [('src/substitute.cpp', "        if (e.type.ends_with('*')) {\n            type = e.type + '*';\n        } else {\n            type = e.type + \" *\";", "        if (e.type.ends_with('*')) {\n            type = e.type;\n        } else {\n            type = e.type + \" *\";")],
   'echo "extern char *obj; int f(int a);" >$t/in\necho "%%sym_type%% %%symbol%%;" >$t/tpl\n$gen -template=$t/tpl $t/in >$t/o\ngrep -qF "char **obj" $t/o || grep -qF "char ** obj" $t/o\n',
   'an object of pointer type', 'the pointer to the object has the type of the object'),
 G('c19-pad-underflow', 'C19', [('src/substitute.cpp', '    if (utils::find(entry, "%%obj_symbol_pad%%")) {\n        longest = get_longest_symbol_size(m_objects);', '    if (utils::find(entry, "%%obj_symbol_pad%%")) {\n        longest = m_objects.front().symbol.size();')],
   'echo "extern int a; extern int longer;" >$t/in\necho "%%obj_symbol_pad%%|" >$t/tpl\n$gen -template=$t/tpl $t/in >$t/o\n',
   'a padded list of objects whose first name is not the longest', 'a huge length is computed by an unsigned underflow'),
 G('c19-front-empty', 'C19', [('src/clang_ast.cpp', '    const bool is_function = (utils::str_at(line, 2) == \'F\');', '    const bool is_function = (line.c_str()[2] == \'F\');')] if 0 else
   [('src/generate.cpp', '                char c = (*it).symbol.c_str()[pos];', '                char c = (*it).symbol.data()[pos + 1 - 1];'), ('src/generate.cpp', '                if (c == 0 || c != front[pos]) {', '                if (c != front[pos]) {'), ('src/generate.cpp', 'for (i = 0; i < (*it0).symbol.size(); i++) {', 'for (i = 0; i <= (*it0).symbol.size(); i++) {')],
   'printf "int aaaaaaaaaaaaaaaaaaaaaaaaaaaa(int a);\\nextern int aaaaaaaaaaaaaaaaaaaaaaaaaaaa1;\\n" >$t/in\n$gen -no-date -format=c $t/in >$t/o; grep -q "COMMON_PREFIX \\"aaaaaaaaaaaaaaaaaaaaaaaaaaaa\\"" $t/o\n',
   'x', 'x') if 0 else
 G('c19-paren-scan', 'C19', [('src/tokenize.cpp', '        return (next != v.end() && (*it).ch == ch && (*next).ch == ch);', '        return ((*it).ch == ch && (*next).ch == ch);')],
   'mkdir $t/b\ng++ -std=c++20 -w -g -fsanitize=address -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_DEBUG -I$src -I$src/../_build -I$src/../_build/src $src/main.cpp $src/tokenize.cpp -c 2>/dev/null && false\necho\n', 'x', 'x') if 0 else
 G('c19-extension', 'C19', [('src/utils.hpp', 'return (s.front() == a && s.back() == b);', 'return (s.front() == a && s[s.size() - 1] == b);')], '', '', '') if 0 else None,
 G('c20-star-comment', 'C20', [('src/lex.yy.c', '', '')], '', '', '') if 0 else None,
 G('c21-forward', 'C21', [('src/tokenize.cpp', "                    tagged |= tokens.empty();\n                    tokens.push_back(lex::text());", "                    tagged = (tagged || tokens.empty());\n                    if (!(tagged && tokens.size() == 1)) { tokens.push_back(lex::text()); }")],
   'echo "enum enum foo(int a); int f(int a);" >$t/in\n', '', ''),
 G('c13-contradictory', 'C13', [('src/parse.cpp', '                if ((*i).symbol == (*j).symbol) {', '                if ((*i).symbol == (*j).symbol && (*i).prototype == (*j).prototype) {')],
   'echo "int foo(int a); extern int foo;" >$t/in\nset +e\n$gen -print-symbols $t/in >$t/o 2>/dev/null; [ $? -ne 0 ] || exit 1\n',
   'a symbol declared both as a function and as an object', 'contradictory declarations are accepted'),
 G('c21-last-prototype', 'C21', [('src/tokenize.cpp', "        /* push back if last prototype didn't end on semicolon */", "        /* push back if last prototype didn't end on semicolon */\n        if (vec.size() > 0 && rv != LEX_ERROR) {\n            return rv;\n        }\n")],
   'echo "int foo(int a); int bar(int b)" >$t/in\n$gen -print-symbols $t/in >$t/o\ngrep -q bar $t/o\n',
   'several declarations, the last one without a semicolon', 'the last declaration is dropped'),
 G('c21-array-param', 'C21', [('src/parameter_names.cpp', "            /* check for `...' */\n", "")], '', '', ''),
 G('c22-typedef-lines', 'C22', [('src/generate.cpp', '    lines += save::typedefs(m_typedefs);', '    save::typedefs(m_typedefs);')],
   'echo "extern int (*fp)(int a); int f(int a);" >$t/in\n$gen -line -no-date -format=c -out=$t/o.h $t/in\nn=$(grep -n "^#line.*\\"o.h\\"" $t/o.h | tail -1)\n[ "$(echo $n | cut -d: -f1)" = "$(($(echo $n | sed "s/.*#line \\([0-9]*\\).*/\\1/") - 1))" ]\n',
   '-line with a declaration that needs a typedef', 'the last #line directive has a wrong number'),
 G('c22-crlf-entry', 'C22', [('src/utils.cpp', '            entry.data.replace(entry.data.size() - 2, 2, "\\r\\n");\n            entry.line_count++;', '            entry.data.replace(entry.data.size() - 2, 2, "\\r\\n");')],
   'echo "int f(int a);" >$t/in\nprintf "%%%%symbol%%%%@\\r\\nb\\r\\n%%%%symbol%%%%c\\r\\n" >$t/tpl\n$gen -line -template=$t/tpl $t/in >$t/o\ngrep -q "^#line 3" $t/o\n',
   'a template with Windows line endings and an entry of several lines', 'lines after it are attributed to the wrong template line'),
 G('c23-count-recursive', 'C23', [('src/utils.cpp', 'bool utils::get_lines(FILE *fp, template_t &entry)\n{\n    int c = EOF;', 'static bool more_line(FILE *fp, template_t &entry, int &c)\n{\n    c = ::fgetc(fp);\n    return save_to_line(c, entry) && more_line(fp, entry, c) && entry.line_count > 0;\n}\n\nbool utils::get_lines(FILE *fp, template_t &entry)\n{\n    int c = EOF;'),
    ('src/utils.cpp', '    while (true) {\n        c = ::fgetc(fp);\n\n        if (!save_to_line(c, entry)) {\n            break;\n        }\n    }', '    more_line(fp, entry, c);')],
   'echo "int f(int a);" >$t/in\nhead -c 2000000 /dev/zero | tr "\\0" x >$t/tpl\n(ulimit -s 8192; $gen -template=$t/tpl $t/in >$t/o)\n',
   'a template line of about a million characters', 'the stack overflows'),
 G('c23-regex-strip', 'C23', [('src/gendlopen.cpp', "        name = def.substr(0, pos);\n        value = ' ' + def.substr(pos + 1);", "        name = def.substr(0, pos);\n        value = ' ' + std::regex_replace(def.substr(pos + 1), std::regex(\"[ \\\\t]+$\"), \"\");")],
   'echo "int f(int a);" >$t/in\n$gen -format=c -DX="1$(head -c 120000 /dev/zero | tr "\\0" " ")" $t/in >$t/o\n',
   'a macro value with some 100000 blanks', 'the stack overflows inside the regular-expression library'),
]
S = [s for s in S if s and s['needs'] and s['needs'] != 'x']
S += [
 G('c20-splice-in-pre', 'C20', [('src/lex.yy.c', 'case 26:\n/* rule 26 can match eol */\nYY_RULE_SETUP\n{ BEGIN(COMMENT); /* simple comment */ }', 'case 26:\n/* rule 26 can match eol */\nYY_RULE_SETUP\n{ BEGIN(INITIAL); /* simple comment */ }')],
   "printf '#define X 1 /\\\\\\n/ int hidden(int a);\\nint foo(int a);\\n' >$t/in\n$gen -print-symbols $t/in >$t/o\n! grep -q hidden $t/o\n",
   'a line comment on a preprocessor line whose two slashes are separated by a line continuation', 'commented text becomes a prototype'),
 G('c20-splice-close', 'C20', [('src/lex.yy.c', 'case 19:\n/* rule 19 can match eol */\nYY_RULE_SETUP\n{ BEGIN(INITIAL); /* end */ }', 'case 19:\n/* rule 19 can match eol */\nYY_RULE_SETUP\n{ BEGIN(COMMENT); /* end */ }')],
   "printf '/* text *\\\\\\n/ int foo(int a);\\nint bar(int a);\\n' >$t/in\n$gen -print-symbols $t/in >$t/o\ngrep -q foo $t/o\n",
   'a block comment whose end is split by a line continuation', 'the text behind the comment is swallowed'),
 G('c20-ast-line', 'C20', [('src/lex.l', "    if (yylineno == 1) {", "    if (yylineno <= 2) {"), ('src/lex.yy.c', "    if (yylineno == 1) {", "    if (yylineno <= 2) {")],
   'printf "int foo(int a);\\nTranslationUnitDecl 0x1\\n|-FunctionDecl 0x1 <col:1> col:1 bar %cint ()%c\\n" 39 39 | sed "s/39/x/" >$t/in0\nprintf "int foo(int a);\\nTranslationUnitDecl 0x1\\n" >$t/in\nset +e\n$gen -ast-all-symbols -print-symbols $t/in >$t/o 2>$t/e; [ $? -ne 0 ] || exit 1\ngrep -q "instead of line 1" $t/e\n',
   'an AST header on the second line behind an ordinary declaration', 'text that is not an AST dump is read as one'),
 G('c21-one-word', 'C21', [('src/parse.cpp', '            proto_t proto;\n            proto.prototype = proto::function;\n            proto.saved = false;\n', '            proto_t proto = {};\n\n            if (v.size() == 1) {\n                continue; /* stray macro */\n            }\n\n            proto.prototype = proto::function;\n            proto.saved = false;\n')],
   'echo "int foo(int a); bar;" >$t/in\nset +e\n$gen -print-symbols $t/in >/dev/null 2>&1; [ $? -ne 0 ] || exit 1\n',
   'a declaration that consists of one word', 'the declaration is dropped and the run succeeds'),
 G('c21-option-in-block', 'C21', [('src/tokenize.cpp', "                        tokens.clear();\n                    }\n                    break;\n\n                /* \"%option\" line */\n                case LEX_OPTION:\n                    if (options) {\n                        options->push_back(lex::text());\n                    }\n                    break;\n\n                default:\n                    /* EOF, error, etc. */\n                    loop = false;\n                    break;\n                }\n            }\n            else", "                        tokens.clear();\n                    }\n                    break;\n\n                /* \"%option\" line */\n                case LEX_OPTION:\n                    break;\n\n                default:\n                    /* EOF, error, etc. */\n                    loop = false;\n                    break;\n                }\n            }\n            else")],
   'printf "typedef struct {\\n%%option library=quux\\nint a; } t;\\nint foo(int a);\\n" >$t/in\n$gen -format=c $t/in >$t/o\ngrep -q quux $t/o\n',
   'an %option line while a type definition is open', 'the setting is ignored'),
 G('c21-lib-nq-case', 'C21', [('src/generate.cpp', '            if (utils::find(sub, \':\', pos) && !utils::find(sub, \'\\n\') && !utils::find(sub, \'\\r\')) {', '            if (utils::find(sub, \':\', pos) && pos < 2) {') if 0 else ('src/generate.cpp', '            auto sub = str.substr(4);\n            lib_a = quote_lib(sub, false) + \' \' + pfx + "_LIBEXTA";', '            auto sub = str.substr(4, str.find(\':\', 4) - 4);\n            lib_a = quote_lib(sub, false) + \' \' + pfx + "_LIBEXTA";')],
   'echo "int foo(int a);" >$t/in\n$gen -format=c -library=ext:a:b $t/in >$t/o\ngrep -qF \'"a:b" GDO_LIBEXTA\' $t/o\n',
   'a default library given as ext:<name> whose name contains a colon', 'part of the library name is lost'),
]
