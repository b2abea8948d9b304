"""Realistic bugs in the generator program without demonstrations; each must be reported by (one of) its properties' checks.
usage: mutants_gen.py [regex] [-k keep going on other properties]"""
import sys, os, re, subprocess, shutil, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'src/generate.cpp'; S = 'src/substitute.cpp'; D = 'src/gendlopen.cpp'; U = 'src/utils.cpp'; P = 'src/parse.cpp'; T = 'src/tokenize.cpp'; A = 'src/clang_ast.cpp'; N = 'src/parameter_names.cpp'; O = 'src/options.cpp'; F = 'src/data.cpp'; L = 'src/lex.yy.c'; C = 'src/check_pattern.cpp'; W = 'src/cio_ofstream.cpp'; H = 'src/help.cpp'; I = 'src/open_file.cpp'; M = 'src/main.cpp'
X = [
 # C12
 ('tpl-force', 'C12', D, 'save::open_ofstream(m_output, m_force);', 'save::open_ofstream(m_output, m_force || !m_custom_template.empty());'),
 ('body-force', 'C12', G, 'save::open_ofstream(ofbody, m_force);', 'save::open_ofstream(ofbody, true);'),
 ('remove-all', 'C12', G, 'fs::remove(opath);', 'fs::remove_all(opath);'),
 ('force-through', 'C12', G, '''    if (force) {
        fs::remove(opath);
    }

    /* check symlink and not its target */
    if (fs::exists(fs::symlink_status(opath))) {''', '''    /* check symlink and not its target */
    if (force) {
        if (fs::is_regular_file(opath)) {
            fs::remove(opath);
        }
    } else if (fs::exists(fs::symlink_status(opath))) {'''),
 ('cleanup-on-error', 'C12', M, '''    catch (const gendlopen::error &e) {
''', '''    catch (const gendlopen::error &e) {
        if (!gdo.output().empty() && gdo.output() != "-") {
            std::remove(gdo.output().c_str());
        }
'''),
 ('dash-dir', 'C12 C17 C14', G, 'if (opath.empty() || opath == "-") {', 'if (opath.empty() || opath.filename() == "-") {'),
 ('sep-check-name', 'C12', G, 'save::open_ofstream(ofbody, m_force);', 'save::ofs.open(ofbody);'),
 # C13
 ('tpl-ferror', 'C13', D, '''    if (::ferror(fp)) {
        throw error("failed to read file: " + m_custom_template);
    }
''', ''),
 ('ext-ferror', 'C13', F, '''        if (::ferror(fp)) {
            throw gendlopen::error("failed to read file: " + path);
        }
''', ''),
 ('unknown-option-line', 'C13 C17', O, 'throw gendlopen::error("unknown %option string: " + token);', 'std::cerr << "warning: unknown %option string: " << token << std::endl;'),
 ('no-std-catch', 'C13', M, 'catch (const std::exception &e) {', 'catch (const std::bad_alloc &e) {'),
 ('api-default', 'C13', G, '''            throw gendlopen::error("library name does not match `api:<number>:<name>': " + str);
''', ''),
 ('dup-adjacent', 'C13 C16', P, 'for (auto j = vproto.begin(); i != j; ++j) {', 'for (auto j = (i == vproto.begin() ? i : i - 1); i != j; ++j) {'),
 ('empty-include', 'C13 C17', D, '''    if (name.empty()) {
        throw error("macro name missing: " + def);
    }
''', '''    if (name.empty()) {
        return;
    }
'''),
 ('param-mode-default', 'C13 C17', D, '''        throw error(std::string(__func__) + std::string(": unknown mode: ") + str);''', '''        std::cerr << "unknown mode: " << str << std::endl;'''),
 ('sym-notfound-warn', 'C16 C13', P, '''                throw error("the following symbols were not found:" + s);''', '''                std::cerr << "the following symbols were not found:" << s << std::endl;'''),
 ('exit-2', 'C13', O, 'throw gendlopen::error_cmd("input file is required");', 'help::print(argv[0]); exit_success();'),
 ('mixed-warn', 'C13 C18', S, '''            throw error("cannot mix function, object and regular symbol"
                        " placeholders:\\n" + line.data);''', '''            save::ofs << "/* cannot mix placeholders */\\n";
            return 1;'''),
 # C14
 ('close-unchecked', 'C14', W, 'ok = ok && !m_ofs.fail();', ''),
 ('flush-unchecked', 'C14', W, 'bool ok = !m_optr->flush().fail();', 'bool ok = true;\n    m_optr->flush();'),
 ('print-unchecked', 'C14', D, '''    if (!out.close()) {
        throw error("failed to write to standard output");
    }
''', ''),
 ('exit-unchecked', 'C14', O, 'if (std::cout.flush().fail()) {', 'if (std::cout.flush().bad() && errno == ENOSPC) {'),
 ('hdr-close', 'C14', G, 'save::close_ofstream(use_stdout ? fs::path("-") : ofhdr);', 'save::ofs.close();'),
 ('tpl-dump-close', 'C14', F, '''        if (!ofs.close()) {
            throw gendlopen::error(std::string("failed to write file: ") + path);
        }
''', '''        ofs.close();
'''),
 ('tpl-close', 'C14', D, '    save::close_ofstream(m_output);\n', '    if (!m_output.empty()) {\n        save::close_ofstream(m_output);\n    }\n'),
 ('catch-order', 'C14 C13', G, '''    if (!ofs.close()) {
        throw gendlopen::error("failed to write output: " + opath.string());''', '''    if (!ofs.close() && opath != "-") {
        throw gendlopen::error("failed to write output: " + opath.string());'''),
 # C15
 ('note-user', 'C15', G, 'strm << ".\\n"\n', 'if (const char *u = ::getenv("USER")) strm << " (" << u << ")";\n    strm << ".\\n"\n'),
 ('note-nodate', 'C15', G, '    if (print_date) {\n        struct tm', '    if (print_date || ::getenv("SOURCE_DATE_EPOCH")) {\n        struct tm'),
 ('line-abs', 'C15', D, 'save::ofs << "#line 1 \\"" << m_custom_template << "\\"\\n";', 'save::ofs << "#line 1 \\"" << std::filesystem::absolute(m_custom_template).string() << "\\"\\n";'),
 ('ptr-order', 'C15', P, '''        /* copy all symbols */
        for (auto &e : vproto) {
            save_symbol(e);
        }
''', '''        /* copy all symbols */
        std::map<const char *, proto_t *> order;

        for (auto &e : vproto) {
            order[e.symbol.size() > 15 ? e.symbol.c_str() : (const char *)&e] = &e;
        }
        for (auto &e : order) {
            save_symbol(*e.second);
        }
'''),
 # C16
 ('prefix-nocase', 'C16', U, 'if (s.starts_with(e)) {', 'if (strncasecmp(s.c_str(), e.c_str(), e.size()) == 0) {'),
 ('ast-redecl-kind', 'C16', A, 'if (is_redeclared(m_prototypes) || is_redeclared(m_objects)) {', 'if (is_redeclared(m_prototypes)) {'),
 ('ast-stop-early', 'C16', A, 'if (mode == filter::list && m_symbol_list.empty()) {', 'if ((mode & filter::list) && m_symbol_list.empty()) {'),
 ('ast-list-mode', 'C16', A, '''if ((mode & filter::list) && !m_symbol_list.empty()) {
        std::string s;''', '''if (mode == filter::list && !m_symbol_list.empty()) {
        std::string s;'''),
 ('txt-erase-one', 'C16', P, 'std::erase(m_symbol_list, e.symbol) > 0) {', '[&] { auto i = std::find(m_symbol_list.begin(), m_symbol_list.end(), e.symbol); if (i == m_symbol_list.end()) return false; m_symbol_list.erase(i); return true; }()) {'),
 ('ast-short-erase', 'C16', A, '''        if (std::erase(m_symbol_list, proto.symbol) == 0 &&
            !utils::is_prefixed(proto.symbol, m_prefix_list))
        {
            return 0;
        }
        break;''', '''        if (!utils::is_prefixed(proto.symbol, m_prefix_list) &&
            std::erase(m_symbol_list, proto.symbol) == 0)
        {
            return 0;
        }
        break;'''),
 ('obj-filter', 'C16', P, '            if (found) {\n', '            if (found || (e.prototype != proto::function && (mode == filter::prefix))) {\n'),
 ('ast-col-name', 'C16 C21', A, '"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz";', '"0123456789ABCDEFGHIJKLMNOPQRSTUVWXY_abcdefghijklmnopqrstuvwxyz";'),
 ('order-rev', 'C16', P, '                m_objects.push_back(p);', '                m_objects.insert(m_objects.begin(), p);'),
 # C17
 ('sep-guard', 'C17', O, '            separate(true);\n', '            separate(true);\n            pragma_once(false);\n'),
 ('optline-prefix', 'C17', O, '''        } else if (get_option(token, p, "prefix=")) {
            prefix(p);''', '''        } else if (get_option(token, p, "prefix=")) {
            add_pfx(p);'''),
 ('help-missing', 'C17', H, None, None),
 ('line-by-template', 'C17', O, '''            custom_template(p);
''', '''            custom_template(p);
            line_directive(false);
'''),
 ('force-order', 'C17 C12', O, '''            output(p);
''', '''            output(p);
            force(false);
'''),
 ('ignore-options-order', 'C17', O, 'if (token == "line") {', 'if (m_print_symbols) {\n            continue;\n        } else if (token == "line") {'),
 ('lib-last', 'C17 C21', O, '        } else if (get_option(token, p, "library=")) {\n            default_lib(p);', '        } else if (get_option(token, p, "library=")) {\n            if (m_default_lib.empty()) default_lib(p);'),
 ('prefix-lower', 'C17 C18', D, 'm_pfx_lower = utils::to_lower(m_pfx);', 'm_pfx_lower = m_pfx;'),
 # C18
 ('replace-once', 'C18', U, '    while ((pos = str.find(from, pos)) != std::string::npos) {', '    if ((pos = str.find(from, pos)) != std::string::npos) {'),
 ('skip-use-read', 'C18', S, 'param_skip_code = (parameter_names != param::skip);', 'param_skip_code = (parameter_names == param::read);'),
 ('void-case', 'C18', S, 'if (utils::strcasecmp(e.type.c_str(), "void") == 0) {', 'if (utils::strncasecmp(e.type.c_str(), "void", 4) == 0) {'),
 ('plugin-body', 'C18', F, 'concat_sources(t::ptr_plugin_header, t::ptr_plugin_body);', 'concat_sources(t::ptr_plugin_header, t::ptr_c_body);'),
 ('sep-common', 'C18', F, '            body.push_back(t::ptr_common_body);\n', '            if (m_format != output::plugin) body.push_back(t::ptr_common_body);\n'),
 ('symtype-obj', 'C18', S, '            type = e.type + \'*\';', '            type = e.type;'),
 ('pad-first', 'C18', S, 'utils::replace("%%func_symbol_pad%%", s, copy);', 'copy.replace(copy.find("%%func_symbol_pad%%"), 19, s);'),
 ('prefix-twice', 'C18', D, 'buf = std::regex_replace(buf, reg_pfxlower, m_fmt_lower);', 'buf = std::regex_replace(buf, reg_pfxlower, m_fmt_lower, std::regex_constants::format_first_only);'),
 ('multi-maybe', 'C18', U, '''    case '%':
        entry.maybe_keyword = true;''', '''    case '%':
        entry.maybe_keyword = (entry.line_count == 1);'''),
 ('empty-objs', 'C18 C22', S, '''            if (m_objects.empty()) {
                return print_lineno();
            }
''', '''            if (m_objects.empty()) {
                break;
            }
'''),
 # C19
 ('enclosed-end', 'C19', C, "if (depth < 1 && !(*it == \"]\" && *(it+1) == \"[\")) {", "if (!(*it == \"]\" && *(it+1) == \"[\") && depth < 1) {"),
 ('bounds-end', 'C19', C, '''            (std::distance(v.begin(), it) < sq.dist_front ||
             std::distance(it, v.end()) < sq.dist_end))''', '''            std::distance(v.begin(), it) < sq.dist_front)'''),
 ('empty-param', 'C19', N, '''        if (v.empty()) {
            msg = "empty parameter in function `" + proto.symbol + "'";
            return false;
        }

        /* check if a parameter begins with pointer */''', '''        /* check if a parameter begins with pointer */'''),
 ('ptr-early', 'C19', F, '''        load_from_file(templates::data_##VAR, m_templates_path, #FILE, m_line_directive); \\
        templates::ptr_##VAR = templates::data_##VAR.data(); \\''', '''        templates::data_##VAR.reserve(2048); \\
        templates::ptr_##VAR = templates::data_##VAR.data(); \\
        load_from_file(templates::data_##VAR, m_templates_path, #FILE, m_line_directive); \\'''),
 ('signed-char', 'C19', U, '''        for (const unsigned char c : str) {
            if (::isalnum(c)) {
                out += static_cast<char>(::tolower(c));''', '''        for (const char c : str) {
            if (::isalnum(c)) {
                out += static_cast<char>(::tolower(c));'''),
 ('strip-empty', 'C19', U, 'while (!s.empty() && ::isspace(static_cast<unsigned char>(s.front()))) {', 'while (::isspace(static_cast<unsigned char>(s.front()))) {'),
 ('lib-empty', 'C19', G, 'if (!m_default_lib.empty()) {', 'if (m_default_lib != "-") {'),
 ('erase-iter', 'C19', T, '''                v.erase(inner_Rparen);
                v.erase(inner_Lparen);''', '''                v.erase(inner_Lparen);
                v.erase(inner_Rparen);'''),
 ('consec-end', 'C19', T, "return (next != v.end() && (*it).ch == ch && (*next).ch == ch);", "return ((*it).ch == ch && (*next).ch == ch);"),
 ('common-prefix-oob', 'C19', G, 'if (c == 0 || c != front[pos]) {', 'if (c != front[pos]) {'),
 ('fptr-neg', 'C19', A, 'const bool is_function = (utils::str_at(line, 2) == \'F\');', 'const bool is_function = (line.at(2) == \'F\');'),
 ('sentinel', 'C19', F, '''        entry = { {}, 0, 0 };
        data.push_back(entry);''', '''        if (!entry.data.empty()) {
            entry = { {}, 0, 0 };
            data.push_back(entry);
        }'''),
 ('stale-text', 'C19 C23', A, 'const std::string line = strip_line(lex::text());\n\n    if (line.empty())', 'static const char *last = lex::text();\n    const std::string line = strip_line(last);\n    last = lex::text();\n\n    if (line.empty())'),
 # C20
 ('lex-comment-split', 'C20', L, '/* rule 13 can match eol */\nYY_RULE_SETUP\n{ /* line split */ }', '/* rule 13 can match eol */\nYY_RULE_SETUP\n{ BEGIN(INITIAL); }'),
 ('lex-pre-split', 'C20', L, '/* rule 28 can match eol */\nYY_RULE_SETUP\n{ /* line split */ }', '/* rule 28 can match eol */\nYY_RULE_SETUP\n{ BEGIN(INITIAL); /* line split */ }'),
 ('lex-precomment-nl', 'C20', L, "{ /* the PRE line ends after the comment */ }", "{ BEGIN(C_COMMENT); }"),
 ('lex-precomment-end', 'C20', L, 'case 31:\nYY_RULE_SETUP\n{ BEGIN(PRE); /* continue PRE line */ }', 'case 31:\nYY_RULE_SETUP\n{ BEGIN(INITIAL); }'),
 ('lex-split-slash', 'C20', L, '/* rule 12 can match eol */\nYY_RULE_SETUP\n{ BEGIN(COMMENT); /* simple comment */ }', '/* rule 12 can match eol */\nYY_RULE_SETUP\n{ }'),
 ('lex-illegal', 'C20 C13', L, '{ set_illegal_char(); return LEX_ERROR; }', '{ set_illegal_char(); if (yylineno > 1) return LEX_ERROR; }'),
 ('lex-ellipsis', 'C20', L, 'case 44:\nYY_RULE_SETUP\n{ return LEX_OTHER; }', 'case 44:\nYY_RULE_SETUP\n{ }'),
 ('lex-optsplit', 'C20', L, '/* rule 7 can match eol */\nYY_RULE_SETUP\n{ /* line split */ }', '/* rule 7 can match eol */\nYY_RULE_SETUP\n{ BEGIN(INITIAL); /* line split */ }'),
 ('lex-errfmt', 'C20 C19 C13', L, 'fmt = "illegal character [0x%02X] at line %d";', 'fmt = "illegal character [%s] at line %d";'),
 ('lex-ast-line', 'C20', L, '{ return handle_ast_begin(); }', '{ BEGIN(AST); return LEX_AST_BEGIN; }'),
 ('lex-union', 'C20', L, '{ return LEX_UNION; }', '{ return LEX_ID; }'),
 # C21
 ('last-semicolon', 'C21', T, '''        if (!tokens.empty() && !(tagged && tokens.size() == 2)) {
            vec.push_back(tokens);
        }

        return rv;''', '''        if (tokens.size() > 2 && !(tagged && tokens.size() == 2)) {
            vec.push_back(tokens);
        }

        return rv;'''),
 ('tagged-three', 'C21', T, '''                    if (!tokens.empty() && !(tagged && tokens.size() == 2)) {
                        vec.push_back(tokens);
                    }
                    tokens.clear();''', '''                    if (!tokens.empty() && !(tagged && tokens.size() <= 3)) {
                        vec.push_back(tokens);
                    }
                    tokens.clear();'''),
 ('tagged-sticky', 'C21', T, '''                    tokens.clear();
                    tagged = false;
                    break;''', '''                    tokens.clear();
                    break;'''),
 ('enddef-lost', 'C21', T, "if (!tokens.empty() && !(tokens.front() == \"__attribute__\" && tokens.back() == \")\")) {", "if (tokens.size() > 1 && !(tokens.front() == \"__attribute__\" && tokens.back() == \")\")) {"),
 ('lib-ext-fall', 'C21', G, "            lib_a = lib_w = str.substr(3);\n            break;\n        }\n        [[fallthrough]];\n", "            lib_a = lib_w = str.substr(3);\n        }\n        break;\n"),
 ('defs-last', 'C21', D, 'm_defines += "#ifndef "  + name + \'\\n\';', 'm_defines = "#ifndef "  + name + \'\\n\';'),
 ('inc-dup', 'C21', D, "        m_includes.push_back('\"' + inc + '\"');", "        if (m_includes.size() < 4) m_includes.push_back('\"' + inc + '\"');"),
 ('opt-in-block', 'C21 C17', T, '''                /* "%option" line */
                case LEX_OPTION:
                    if (options) {
                        options->push_back(lex::text());
                    }
                    break;

                default:
                    /* EOF, error, etc. */
                    loop = false;
                    break;
                }
            }
            else''', '''                case LEX_OPTION:
                    break;

                default:
                    /* EOF, error, etc. */
                    loop = false;
                    break;
                }
            }
            else'''),
 ('define-eq', 'C21', D, "if (utils::find(def, '=', pos)) {", "if ((pos = def.rfind('=')) != std::string::npos) {"),
 ('va-args', 'C21', G, 'if (e.args.ends_with("...")) {', 'if (e.args.ends_with(", ...") && e.type != "void") {'),
 ('ast-va-cb', 'C21', A, 'return params.substr(0, pos).ends_with(", ...");', 'return params.find(", ...") != std::string::npos;'),
 ('unterminated', 'C21 C13', T, 'if (block && curly_count > 0 && rv != LEX_ERROR) {', 'if (block && curly_count > 1 && rv != LEX_ERROR) {'),
 # C22
 ('lineno-multi', 'C22', S, '(m_substitute_lineno + line.line_count) << \'\\n\';', '(m_substitute_lineno + 1) << \'\\n\';'),
 ('lineno-skip', 'C22', S, "save::ofs << \"#line \" << (m_substitute_lineno + 1) << '\\n';", "save::ofs << \"#line \" << m_substitute_lineno << '\\n';"),
 ('lineno-reset', 'C22', S, '        m_substitute_lineno = 0;\n', '        if (vec.size() < 3) m_substitute_lineno = 0;\n'),
 ('lineno-custom', 'C22', D, 'm_substitute_lineno += entry.line_count;', 'if (!param_skip_code) m_substitute_lineno += entry.line_count;'),
 ('line-count-obj', 'C22', S, '''        if (m_line_directive) {
            save::ofs << "#line " << m_substitute_lineno << '\\n';
            line_count++;
        }

        save::ofs << copy << '\\n';
        line_count += entry_lines + 1;
    };''', '''        if (m_line_directive) {
            save::ofs << "#line " << m_substitute_lineno << '\\n';
        }

        save::ofs << copy << '\\n';
        line_count += entry_lines + 1;
    };'''),
 ('line-ext-name', 'C22', F, 'entry.data = "#line 1 \\"" + std::string(file) + \'"\';', 'entry.data = "#line 1 \\"" + dir + \'"\';'),
 ('line-inc', 'C22', G, '    for (auto &e : incs) {\n        str += "#include " + e + \'\\n\';\n    }\n\n    str += \'\\n\';\n    ofs << str;\n\n    return utils::count_linefeed(str);', '    str += \'\\n\';\n    const size_t n = utils::count_linefeed(str);\n\n    for (auto &e : incs) {\n        ofs << "#include " + e + \'\\n\';\n    }\n\n    ofs << str;\n\n    return n;'),
 # C23
 ('long-type', 'C23', N, '        const std::string name = "a" + std::to_string(param_count);\n        proto.args += name + separator;', '        char name[8];\n        snprintf(name, sizeof(name), "a%d", param_count);\n        proto.args += name;\n        proto.args += separator;\n        if (proto.args.size() > 4096) proto.args.resize(4096);'),
 ('long-line', 'C23', U, '        c = ::fgetc(fp);\n', '        c = ::fgetc(fp);\n\n        if (c != EOF && c != \'\\n\' && entry.data.size() >= 1023) {\n            continue;\n        }\n'),
 ('re-strip', 'C23', T, '        utils::strip_spaces(s);\n\n        utils::replace("( ", "(", s);', '        s = std::regex_replace(s, std::regex("^\\\\s+|\\\\s+$"), "");\n\n        utils::replace("( ", "(", s);'),
 ('rec-paren', 'C23', T, '                if (erase_Rparen(v, inner_Lparen, outer_Lparen)) {\n                    /* don\'t increment iterator */\n                    continue;\n                }', '                if (erase_Rparen(v, inner_Lparen, outer_Lparen)) {\n                    remove_matching_parentheses(v);\n                    return;\n                }'),
 ('alloca-name', 'C23', A, '    std::string s = line, out;\n', '    const size_t n = strlen(line);\n    char *tmp = static_cast<char *>(__builtin_alloca(n + 1));\n    memcpy(tmp, line, n + 1);\n    std::string s = tmp, out;\n'),
]
FIX = {'ptr-order': [(P, '#include <iterator>\n', '#include <iterator>\n#include <map>\n')], 're-strip': [(T, '#include <algorithm>\n', '#include <algorithm>\n#include <regex>\n')], 'line-abs': [(D, '#include <cstdlib>\n', '#include <cstdlib>\n#include <filesystem>\n')],
       'alloca-name': [(A, '#include <stddef.h>\n', '#include <stddef.h>\n#include <string.h>\n')], 'cleanup-on-error': [(M, '#include <iostream>\n', '#include <iostream>\n#include <cstdio>\n')], 'exit-unchecked': [(O, '#include <string.h>\n', '#include <string.h>\n#include <errno.h>\n')]}

def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else '.'
    for name, props, f, old, new in X:
        if not re.search(pat, name) and not re.search(pat, props.split()[0]): continue
        if old is None: continue
        d = tempfile.mkdtemp(prefix='mutg.', dir='/tmp'); tree = d + '/repo'
        try:
            subprocess.run(['cp', '-a', '/repo', tree], check=True)
            bad = False
            for ff, o, n in [(f, old, new)] + FIX.get(name, []):
                p = os.path.join(tree, ff); t = open(p).read()
                if t.count(o) != 1: print('%-22s edit of %s matches %d times' % (name, ff, t.count(o))); bad = True; break
                open(p, 'w').write(t.replace(o, n))
            if bad: continue
            r = subprocess.run(['ninja', '-C', tree + '/_build', ], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: print('%-22s does not build: %s' % (name, [l for l in r.stdout.decode().splitlines() if 'error' in l][:2])); continue
            tests = subprocess.run(['meson', 'test', '-C', tree + '/_build', '--no-rebuild'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode
            res = []
            for p in props.split():
                r = subprocess.run(['python3', os.path.join(VERIF, 'check.py'), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, GDO_REPO=tree))
                out = r.stdout.decode('utf8', 'replace').strip().splitlines()
                res.append((p, {0: 'MISSED', 1: 'caught', 2: 'ERROR'}.get(r.returncode), (out or [''])[0][:170]))
                if r.returncode == 1: break
            print('%-22s %s tests:%s %s' % (name, 'ok ' if any(x[1] == 'caught' for x in res) else 'BAD', tests, '; '.join('%s %s %s' % x for x in res))); sys.stdout.flush()
        finally: shutil.rmtree(d)
if __name__ == '__main__': main()
