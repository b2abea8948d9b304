"""Behaviour-preserving edits of the generator program, in bundles: every check of C12-C23 must stay quiet on each.
usage: same_gen.py [bundle regex] [check regex]"""
import sys, os, re, subprocess, shutil, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

B = {}
# ------------------------------------------------ helpers and text utilities
B['text'] = [
('src/utils.cpp', '''    std::string out;

    if (underscores) {
        for (const unsigned char c : str) {
            if (::isalnum(c)) {
                out += static_cast<char>(::toupper(c));
            } else {
                out += '_';
            }
        }
    } else {
        for (const unsigned char c : str) {
            out += static_cast<char>(::toupper(c));
        }
    }

    return out;
''', '''    std::string out(str);

    std::transform(out.begin(), out.end(), out.begin(), [underscores] (unsigned char c) -> char {
        if (underscores && !::isalnum(c)) {
            return '_';
        }
        return static_cast<char>(::toupper(c));
    });

    return out;
'''),
('src/utils.cpp', '''    for (const auto &e : list) {
        if (s.starts_with(e)) {
            return true;
        }
    }
    return false;
''', '''    return std::any_of(list.cbegin(), list.cend(), [&s] (const std::string &e) {
        return s.compare(0, e.size(), e) == 0;
    });
'''),
('src/utils.cpp', '''    /* remove from back */
    while (!s.empty() && ::isspace(static_cast<unsigned char>(s.back()))) {
        s.pop_back();
    }

    /* remove from front */
    while (!s.empty() && ::isspace(static_cast<unsigned char>(s.front()))) {
        s.erase(0, 1);
    }
''', '''    size_t first = 0, last = s.size();

    while (first < last && ::isspace(static_cast<unsigned char>(s[first]))) {
        ++first;
    }

    while (last > first && ::isspace(static_cast<unsigned char>(s[last - 1]))) {
        --last;
    }

    s = s.substr(first, last - first);
'''),
('src/utils.cpp', '''    size_t pos = 0;

    /* don't search the replaced text again, it could contain `from' */
    while ((pos = str.find(from, pos)) != std::string::npos) {
        str.replace(pos, from.size(), to);
        pos += to.size();
    }
''', '''    std::string out;
    size_t begin = 0;

    for (;;) {
        const size_t pos = str.find(from, begin);

        if (pos == std::string::npos) {
            break;
        }

        out.append(str, begin, pos - begin);
        out += to;
        begin = pos + from.size();
    }

    out.append(str, begin, std::string::npos);
    str = std::move(out);
'''),
('src/utils.cpp', '''    size_t n = 0;

    for (auto &c : str) {
        if (c == '\\n') {
            n++;
        }
    }

    return n;
''', '''    return static_cast<size_t>(std::count(str.begin(), str.end(), '\\n'));
'''),
('src/utils.cpp', '''    while (true) {
        c = ::fgetc(fp);

        if (!save_to_line(c, entry)) {
            break;
        }
    }
''', '''    do {
        c = ::getc(fp);
    } while (save_to_line(c, entry));
'''),
('src/substitute.cpp', '''        size_t pos = 0;
        const size_t len = token.size();

        while (utils::find(s, token, pos)) {
            s.erase(pos, len);
        }
''', '''        for (size_t pos = s.find(token); pos != std::string::npos; pos = s.find(token)) {
            s.replace(pos, token.size(), "");
        }
'''),
('src/substitute.cpp', '''        auto comp = [] (const proto_t &a, const proto_t &b) {
            return (a.symbol.size() < b.symbol.size());
        };

        auto it = std::max_element(v.begin(), v.end(), comp);

        return (it == v.end()) ? 0 : (*it).symbol.size();
''', '''        size_t n = 0;

        for (const auto &e : v) {
            n = std::max(n, e.symbol.size());
        }

        return n;
'''),
('src/substitute.cpp', '''    const size_t entry_lines = utils::count_linefeed(entry);

    if (utils::find(entry, "%%obj_symbol_pad%%")) {
        longest = get_longest_symbol_size(m_objects);
    }
''', '''    const bool padded = utils::find(entry, "%%obj_symbol_pad%%");
    const size_t entry_lines = utils::count_linefeed(entry);

    if (padded) {
        longest = get_longest_symbol_size(m_objects);
    }
'''),
('src/substitute.cpp', '''        if (strncmp(ptr, str, len) != 0) {
            return false;
        }

        ptr += len;

        if (strcmp(ptr, "REMOVE_BEGIN%") == 0) {
            /* PARAM_SKIP_REMOVE_BEGIN */
            param_skip_code = (parameter_names == param::skip);
            return true;
        } else if (strcmp(ptr, "USE_BEGIN%") == 0) {
            /* PARAM_SKIP_USE_BEGIN */
            param_skip_code = (parameter_names != param::skip);
            return true;
        } else if (strcmp(ptr, "END%") == 0) {
            /* PARAM_SKIP_END */
            param_skip_code = false;
            return true;
        }

        return false;
''', '''        const bool skip = (parameter_names == param::skip);
        const struct { const char *name; bool value; } words[] = {
            { "REMOVE_BEGIN%", skip }, { "USE_BEGIN%", !skip }, { "END%", false }
        };

        if (strncmp(ptr, str, len) == 0) {
            for (const auto &w : words) {
                if (strcmp(ptr + len, w.name) == 0) {
                    param_skip_code = w.value;
                    return true;
                }
            }
        }

        return false;
'''),
('src/substitute.cpp', '''        char kw = 0;

        kw |= find_keyword(function_keywords) << 1;
        kw |= find_keyword(object_keywords)   << 2;
        kw |= find_keyword(symbol_keywords)   << 3;

        switch (kw)
''', '''        const int kw = (find_keyword(symbol_keywords) << 3) +
            (find_keyword(object_keywords) << 2) +
            (find_keyword(function_keywords) << 1);

        switch (kw)
'''),
]
# ------------------------------------------------ output
B['output'] = [
('src/generate.cpp', '''    /* delete file to prevent writing data into symlink target */
    if (force) {
        fs::remove(opath);
    }

    /* check symlink and not its target */
    if (fs::exists(fs::symlink_status(opath))) {
        throw gendlopen::error("file already exists: " + opath.string());
    }

    /* open file for writing */
    if (!ofs.open(opath)) {
        throw gendlopen::error("failed to open file for writing: " + opath.string());
    }
''', '''    const std::string name = opath.string();

    if (force) {
        fs::remove(opath);
    }

    const auto type = fs::symlink_status(opath).type();

    if (type != fs::file_type::not_found) {
        throw gendlopen::error("file already exists: " + name);
    }

    if (!ofs.open(opath)) {
        throw gendlopen::error("failed to open file for writing: " + name);
    }
'''),
('src/generate.cpp', '''    save::ofs << "#line " << (lines + 2) << " \\"" << header_name << "\\"\\n";

    return 1;
''', '''    const std::string s = "#line " + std::to_string(lines + 2) + " \\"" + header_name + "\\"\\n";
    save::ofs << s;

    return utils::count_linefeed(s);
'''),
('src/generate.cpp', '''    std::stringstream strm;

    strm << "// Do not edit this file!\\n"
        "// It was automatically generated by gendlopen";
''', '''    std::ostringstream strm;

    strm << "// Do not edit this file!" << std::endl;
    strm << "// It was automatically generated by gendlopen";
'''),
('src/generate.cpp', '''    strm << ".\\n"
        "// All changes made will be lost.\\n"
        "\\n";

    ofs << strm.str();

    return utils::count_linefeed(strm.str());
''', '''    strm << ".\\n"
        "// All changes made will be lost.\\n"
        "\\n";

    const std::string text = strm.str();
    ofs << text;

    return utils::count_linefeed(text);
'''),
('src/generate.cpp', '''    std::string str = "/* typedefs */\\n";

    for (const auto &e : tdefs) {
        str += "typedef " + e + ";\\n";
    }

    str += '\\n';
    ofs << str;

    return utils::count_linefeed(str);
''', '''    size_t n = 2;

    ofs << "/* typedefs */\\n";

    for (size_t i = 0; i < tdefs.size(); ++i) {
        ofs << "typedef " << tdefs[i] << ";\\n";
        n += 1 + utils::count_linefeed(tdefs[i]);
    }

    ofs << '\\n';

    return n;
'''),
('src/generate.cpp', '''    for ( ; list->line_count != 0; list++) {
        std::string buf;

        if (m_pfx_upper == "GDO") {
            /* nothing to replace */
            buf = list->data;
        } else {
            buf = replace_prefixes(list->data);
        }

        /* save data, count newlines */
        save::ofs << buf;
        total_lines += utils::count_linefeed(buf);

        /* save and count extra newline */
        save::ofs << '\\n';
        total_lines++;
    }
''', '''    while (list->line_count != 0) {
        const bool keep = (m_pfx_upper == "GDO");
        const std::string buf = (keep ? list->data : replace_prefixes(list->data)) + '\\n';

        save::ofs << buf;
        total_lines += utils::count_linefeed(buf);
        list++;
    }
'''),
('src/generate.cpp', '''    lines += save::extra_defines(m_defines);
    lines += save::includes(m_includes, is_cxx);
    lines += save::typedefs(m_typedefs);
''', '''    const size_t n_def = save::extra_defines(m_defines);
    const size_t n_inc = save::includes(m_includes, is_cxx);
    lines += n_def + n_inc + save::typedefs(m_typedefs);
'''),
('src/generate.cpp', '''        for (auto it = vec.begin(); it != vec.end(); it++) {
            if (it != it0) {
                char c = (*it).symbol.c_str()[pos];

                if (c == 0 || c != front[pos]) {
                    return true;
                }
            }
        }

        return false;
''', '''        for (const auto &e : vec) {
            if (&e == &*it0) {
                continue;
            }

            if (pos >= e.symbol.size() || e.symbol[pos] != front[pos]) {
                return true;
            }
        }

        return false;
'''),
('src/generate.cpp', '''        if (lib.size() >= 3 && utils::front_and_back(lib, "L\\"", '"')) {
            /* already quoted */
            return lib;
        } else if (lib.size() >= 2 && utils::front_and_back(lib, '"', '"')) {
            /* prepend 'L' */
            return 'L' + lib;
        }

        return "L\\"" + lib + '"';
    }
''', '''        if (lib.size() >= 3 && utils::front_and_back(lib, "L\\"", '"')) {
            return lib;
        }

        return 'L' + quote_lib(lib, false);
    }
'''),
('src/cio_ofstream.cpp', '''    /* flush STDOUT or the file */
    bool ok = !m_optr->flush().fail();

    if (m_ofs.is_open()) {
        m_ofs.close();
        ok = ok && !m_ofs.fail();
    }

    m_optr = &std::cout;

    return ok;
''', '''    m_optr->flush();
    bool failed = m_optr->fail();

    if (m_ofs.is_open()) {
        m_ofs.close();

        if (m_ofs.fail()) {
            failed = true;
        }
    }

    m_optr = &std::cout;

    return !failed;
'''),
('src/gendlopen.cpp', '''    std::cout << "\\n/***  " << (m_objects.size() + m_prototypes.size()) << " matches  ***/" << std::endl;
''', '''    const size_t count = m_prototypes.size() + m_objects.size();
    std::cout << "\\n/***  " << count << " matches  ***/\\n" << std::flush;
'''),
('src/gendlopen.cpp', '''    /* write initial #line directive */
    if (m_line_directive) {
        if (fp == stdin) {
            save::ofs << "#line 1 \\"<STDIN>\\"\\n";
        } else {
            save::ofs << "#line 1 \\"" << m_custom_template << "\\"\\n";
        }
''', '''    /* write initial #line directive */
    if (m_line_directive) {
        const std::string name = (fp == stdin) ? "<STDIN>" : m_custom_template;
        save::ofs << "#line 1 \\"" << name << "\\"\\n";
'''),
('src/data.cpp', '''                for (const char &c : list->data) {
                    if (c == '\\n') {
                        ofs << "@\\n";
                    } else {
                        ofs << c;
                    }
                }

                ofs << '\\n';
''', '''                std::string text = list->data;
                utils::replace("\\n", "@\\n", text);
                ofs << text << '\\n';
'''),
('src/data.cpp', '''        if (strcmp(file, "license.h") == 0) {
            line_directive = false;
        }

        /* lookup path */
        path = dir + file;
''', '''        line_directive = line_directive && std::string(file) != "license.h";

        /* lookup path */
        path = dir;
        path.append(file);
'''),
]
# ------------------------------------------------ reading declarations
B['parse'] = [
('src/parse.cpp', '''        /* https://stackoverflow.com/a/72800146/5687704 */
        for (auto i = vproto.begin(); i != vproto.end(); ++i) {
            for (auto j = vproto.begin(); i != j; ++j) {
                if ((*i).symbol == (*j).symbol) {
                    buf = (*i).symbol;
                    return true;
                }
            }
        }

        return false;
''', '''        std::set<std::string> seen;

        for (const auto &e : vproto) {
            if (!seen.insert(e.symbol).second) {
                buf = e.symbol;
                return true;
            }
        }

        return false;
'''),
('src/parse.cpp', '#include <iterator>\n', '#include <iterator>\n#include <set>\n'),
('src/parse.cpp', '''            switch (utils::str_front(*it))
            {
            case '(':
                scope++;
                break;
            case ')':
                scope--;
                break;
            case ',':
                if (scope == 0) {
                    proto.args_vec.push_back(tokens);
                    tokens.clear();
                    continue;
                }
                break;
            default:
                break;
            }

            tokens.push_back(*it);
''', '''            const char c = utils::str_front(*it);

            if (c == ',' && scope == 0) {
                proto.args_vec.push_back(std::move(tokens));
                tokens = vstring_t();
                continue;
            }

            if (c == '(') {
                ++scope;
            } else if (c == ')') {
                --scope;
            }

            tokens.push_back(*it);
'''),
('src/parse.cpp', '''            bool found = (mode & filter::prefix) && utils::is_prefixed(e.symbol, m_prefix_list);

            /* erase from list if found */
            if ((mode & filter::list) && std::erase(m_symbol_list, e.symbol) > 0) {
                found = true;
            }

            if (found) {
                save_symbol(e);
            }
''', '''            /* erase from list if found */
            const auto it = std::remove(m_symbol_list.begin(), m_symbol_list.end(), e.symbol);
            const bool listed = (it != m_symbol_list.end());
            m_symbol_list.erase(it, m_symbol_list.end());

            if (listed || ((mode & filter::prefix) && utils::is_prefixed(e.symbol, m_prefix_list))) {
                save_symbol(e);
            }
'''),
('src/parse.cpp', '''        switch (utils::str_front(*it))
        {
        case '(':
            /* the type may consist of more than one identifier */
            return (check_function_paren_pointer(v, p, it)   || /* TYPE ( * SYMBOL ( ) ) */
                    check_function_pointer(v, p, it)         || /* TYPE ( * SYMBOL ) ( ) */
                    check_function_paren(v, p, it)           || /* TYPE ( SYMBOL ) ( ) */
                    check_function(v, p, it));                  /* TYPE SYMBOL ( ) */

        case '[':
            return check_array(v, p, it);

        default:
            break;
        }

        return false;
''', '''        const char c = utils::str_front(*it);

        if (c == '[') {
            return check_array(v, p, it);
        }

        if (c == '(') {
            if (check_function_paren_pointer(v, p, it)) {
                return true;
            }
            if (check_function_pointer(v, p, it)) {
                return true;
            }
            return check_function_paren(v, p, it) || check_function(v, p, it);
        }

        return false;
'''),
('src/parse.cpp', '''        std::cerr << "tokens:";

        for (const auto &e : v) {
            std::cerr << ' ' << e;
        }

        std::cerr << std::endl;
''', '''        std::string line = "tokens:";

        for (const auto &e : v) {
            line += ' ';
            line += e;
        }

        std::cerr << line << '\\n';
'''),
('src/tokenize.cpp', '''        for (auto &e : v_in) {
            entry_t tmp;

            switch (utils::str_front(e))
            {
            case '(':
                n++;
                tmp.ch = '(';
                tmp.num = n;
                break;
            case ')':
                tmp.ch = ')';
                tmp.num = n;
                n--;
                break;
            default:
                tmp.ch = 0;
                tmp.num = 0;
                break;
            }

            tmp.str = std::move(e);
            v.push_back(std::move(tmp));
        }
''', '''        v.reserve(v_in.size());

        for (auto &e : v_in) {
            const char c = utils::str_front(e);
            entry_t tmp = { std::move(e), 0, 0 };

            if (c == '(') {
                tmp.ch = c;
                tmp.num = ++n;
            } else if (c == ')') {
                tmp.ch = c;
                tmp.num = n--;
            }

            v.emplace_back(std::move(tmp));
        }
'''),
('src/tokenize.cpp', '''    std::string input_name = (m_input == "-")
        ? "<STDIN>"
        : "file: " + m_input;
''', '''    std::string input_name = "<STDIN>";

    if (m_input != "-") {
        input_name = "file: " + m_input;
    }
'''),
('src/tokenize.cpp', '''        std::string def, name;

        if (p.prototype == proto::function_pointer) {
            /* function pointer */
            name = m_pfx_lower + '_' + p.symbol + "__t";
            def = fptr_typedef(p.type, name);
        } else if (p.prototype == proto::object_array) {
            /* array type */
            name = m_pfx_lower + '_' + p.symbol + "__t";
            def = array_typedef(p.type, name);
        } else {
            continue;
        }
''', '''        const bool is_fptr = (p.prototype == proto::function_pointer);

        if (!is_fptr && p.prototype != proto::object_array) {
            continue;
        }

        std::string name = m_pfx_lower;
        name.append("_").append(p.symbol).append("__t");
        std::string def = is_fptr ? fptr_typedef(p.type, name) : array_typedef(p.type, name);
'''),
('src/tokenize.cpp', '''    for (auto &e : m_prototypes) {
        format_prototype(e.type);
        format_prototype(e.args);
    }

    for (auto &e : m_objects) {
        format_prototype(e.type);
        format_prototype(e.args);
    }
''', '''    auto format_all = [] (vproto_t &list) {
        for (auto &e : list) {
            format_prototype(e.args);
            format_prototype(e.type);
        }
    };

    format_all(m_objects);
    format_all(m_prototypes);
'''),
('src/parameter_names.cpp', '''        if (proto.args_vec.empty()) {
            /* no parameters */
            return true;
        }

        /* must be 1 parameter */
        if (proto.args_vec.size() != 1) {
            return false;
        }

        auto &v = proto.args_vec.front();

        /* must be 1 token */
        if (v.size() != 1) {
            return false;
        }

        if (utils::strcasecmp(v.front().c_str(), "void") == 0) {
            /* save "void" parameter */
            proto.args = v.front();
            return true;
        }

        /* regular parameters */
        return false;
''', '''        const auto &list = proto.args_vec;

        if (list.size() == 1 && list[0].size() == 1 && utils::strcasecmp(list[0][0].c_str(), "void") == 0) {
            proto.args = list[0][0];
            return true;
        }

        return list.empty();
'''),
('src/parameter_names.cpp', '''        int offset;

        if (parse::is_function_pointer(v, it)) {
            /*  type (       * name ) ( )  */
            /*       ^iter + 1 2    3      */
            offset = 3;
        } else if (parse::is_function_pointer_no_name(v, it)) {
            /*  type (       * ) ( )  */
            /*       ^iter + 1 2      */
            offset = 2;
        } else {
            return false;
        }
''', '''        const bool named = parse::is_function_pointer(v, it);

        if (!named && !parse::is_function_pointer_no_name(v, it)) {
            return false;
        }

        const int offset = named ? 3 : 2;
'''),
('src/clang_ast.cpp', '''    int scope = 0;
    size_t pos = 0;

    for ( ; pos < params.size(); pos++) {
        if (params[pos] == '(') {
            scope++;
        } else if (params[pos] == ')' && --scope == 0) {
            break;
        }
    }

    return params.substr(0, pos).ends_with(", ...");
''', '''    std::string head;
    int scope = 0;

    for (const char c : params) {
        if (c == ')' && --scope == 0) {
            break;
        }

        if (c == '(') {
            scope++;
        }

        head.push_back(c);
    }

    const std::string dots = ", ...";

    return head.size() >= dots.size() && head.compare(head.size() - dots.size(), dots.size(), dots) == 0;
'''),
('src/clang_ast.cpp', '''    case filter::pfx_list:
        /* erase from list if found, even if the prefix matches too */
        if (std::erase(m_symbol_list, proto.symbol) == 0 &&
            !utils::is_prefixed(proto.symbol, m_prefix_list))
        {
            return 0;
        }
        break;
''', '''    case filter::pfx_list:
        {
            /* erase from list if found, even if the prefix matches too */
            const bool listed = (std::erase(m_symbol_list, proto.symbol) != 0);
            const bool prefixed = utils::is_prefixed(proto.symbol, m_prefix_list);

            if (!listed && !prefixed) {
                return 0;
            }
        }
        break;
'''),
]
# ------------------------------------------------ options and settings
B['options'] = [
('src/gendlopen.cpp', '''    if (s == "c") {
        format(output::c);
    } else if (s == "cxx" || s == "c++" || s == "cpp") {
        format(output::cxx);
    } else if (s == "minimal" || s == "minimal-c") {
        format(output::minimal);
    } else if (s == "minimal-cxx" || s == "minimal-c++" || s == "minimal-cpp") {
        format(output::minimal_cxx);
    } else if (s == "plugin" || s == "plugin-c") {
        format(output::plugin);
    } else {
        throw error("unknown output format: " + std::string(str));
    }
''', '''    static const std::map<std::string, output::format> formats = {
        { "c", output::c },
        { "cxx", output::cxx }, { "c++", output::cxx }, { "cpp", output::cxx },
        { "minimal", output::minimal }, { "minimal-c", output::minimal },
        { "minimal-cxx", output::minimal_cxx }, { "minimal-c++", output::minimal_cxx }, { "minimal-cpp", output::minimal_cxx },
        { "plugin", output::plugin }, { "plugin-c", output::plugin }
    };

    const auto it = formats.find(s);

    if (it == formats.end()) {
        throw error("unknown output format: " + std::string(str));
    }

    format(it->second);
'''),
('src/gendlopen.cpp', '#include <regex>\n', '#include <map>\n#include <regex>\n'),
('src/gendlopen.cpp', '''    if (utils::strcasecmp(str, "skip") == 0) {
        parameter_names(param::skip);
    } else if (utils::strcasecmp(str, "create") == 0) {
        parameter_names(param::create);
    } else if (utils::strcasecmp(str, "read") == 0) {
        parameter_names(param::read);
    } else {
        throw error(std::string(__func__) + std::string(": unknown mode: ") + str);
    }
''', '''    const std::string mode = utils::to_lower(str, false);

    if (mode == "read") {
        parameter_names(param::read);
        return;
    }

    if (mode != "skip" && mode != "create") {
        throw error(std::string(__func__) + std::string(": unknown mode: ") + str);
    }

    parameter_names(mode == "skip" ? param::skip : param::create);
'''),
('src/gendlopen.cpp', '''    std::string name, value, out;
    size_t pos;

    if (utils::find(def, '=', pos)) {
        name = def.substr(0, pos);
        value = ' ' + def.substr(pos + 1);
    } else {
        name = def;
    }
''', '''    const size_t pos = def.find('=');
    std::string name = def.substr(0, pos), value;

    if (pos != std::string::npos) {
        value = def.substr(pos);
        value.front() = ' ';
    }
'''),
('src/gendlopen.cpp', '''    const std::regex reg_pfxupper(''', '''    static const std::regex reg_pfxupper('''),
('src/gendlopen.cpp', '''    const std::regex reg_standalone(''', '''    static const std::regex reg_standalone('''),
('src/options.cpp', '''        if (token == "line") {
            line_directive(true);
        } else if (token == "no-date") {
            print_date(false);
        } else if (token == "no-pragma-once") {
            pragma_once(false);
        } else if (get_option(token, p, "D=")) {
            add_def(p);
        } else if (get_option(token, p, "format=")) {
            format(p);
        } else if (get_option(token, p, "include=")) {
            add_inc(p);
''', '''        if (get_option(token, p, "include=")) {
            add_inc(p);
        } else if (get_option(token, p, "format=")) {
            format(p);
        } else if (get_option(token, p, "D=")) {
            add_def(p);
        } else if (token == "no-pragma-once") {
            pragma_once(false);
        } else if (token == "no-date") {
            print_date(false);
        } else if (token == "line") {
            line_directive(true);
'''),
('src/options.cpp', '''        } else if (o.flag("ast-all-symbols")) {
            ast_all_symbols(true);
        } else if (o.arg(p, "D")) {
            add_def(p);
        } else if (o.arg(p, "dump-templates")) {''', '''        } else if (o.arg(p, "D")) {
            const std::string macro = p;
            add_def(macro);
        } else if (o.flag("ast-all-symbols")) {
            ast_all_symbols(true);
        } else if (o.arg(p, "dump-templates")) {'''),
('src/options.cpp', '''    if (!input_file || *input_file == 0) {
        throw gendlopen::error_cmd("input file is required");
    }

    input(input_file);
''', '''    const std::string name = input_file ? input_file : "";

    if (name.empty()) {
        throw gendlopen::error_cmd("input file is required");
    }

    input(name.c_str());
'''),
('src/options.cpp', '''        if (token.compare(0, optlen, opt) == 0) {
            if (token.size() > optlen) {
                return token.c_str() + optlen;
            }

            throw gendlopen::error("%option string requires an argument: " + token);
        }

        return NULL;
''', '''        if (strncmp(token.c_str(), opt, optlen) != 0) {
            return NULL;
        }

        if (token.size() == optlen) {
            throw gendlopen::error("%option string requires an argument: " + token);
        }

        return token.c_str() + optlen;
'''),
('src/open_file.cpp', '''    if (path.empty() || path == "-") {
        m_fp = stdin;
    } else {
        m_fp = ::fopen(path.c_str(), "rb");
    }

    return is_open();
''', '''    const bool use_stdin = (path.empty() || path == "-");

    m_fp = use_stdin ? stdin : ::fopen(path.c_str(), "rb");

    return m_fp != nullptr;
'''),
('src/main.cpp', '''        if (gdo.print_symbols()) { /* -print-symbols */
            gdo.print_symbols_to_stdout();
        } else if (!gdo.custom_template().empty()) { /* -template=.. */
            gdo.process_custom_template();
        } else {
            /* generate output */
            gdo.generate();
        }
''', '''        const bool use_template = !gdo.custom_template().empty();

        if (gdo.print_symbols()) { /* -print-symbols */
            gdo.print_symbols_to_stdout();
            return 0;
        }

        if (use_template) {
            gdo.process_custom_template();
        } else {
            gdo.generate();
        }
'''),
('src/check_pattern.cpp', '''            switch (utils::str_front(*it))
            {
            case '(':
            case '[':
                depth++;
                break;

            case ')':
            case ']':
                depth--;
                break;

            default:
                break;
            }
''', '''            const char c = utils::str_front(*it);

            if (strchr("([", c) && c != 0) {
                depth++;
            } else if (c == ')' || c == ']') {
                depth--;
            }
'''),
('src/check_pattern.cpp', '''    for (auto it = v.begin(); it != v.end(); it++) {
        char c = utils::str_front(*it);

        if (c != '*' && !is_ident(c)) {
            return it;
        }
    }

    return v.end();
''', '''    return std::find_if(v.begin(), v.end(), [] (const std::string &s) {
        const char c = utils::str_front(s);
        return !(c == '*' || is_ident(c));
    });
'''),
]

def main():
    bp = sys.argv[1] if len(sys.argv) > 1 else '.'; cp = sys.argv[2] if len(sys.argv) > 2 else r'C(1[2-9]|2\d)$'
    sys.path.insert(0, os.path.join(VERIF, 'sa'))
    import registry
    for name, edits in B.items():
        if not re.search(bp, name): continue
        d = tempfile.mkdtemp(prefix='same.', dir='/tmp'); tree = d + '/repo'
        try:
            subprocess.run(['cp', '-a', '/repo', tree], check=True)
            for f, old, new in edits:
                p = os.path.join(tree, f); t = open(p).read()
                if t.count(old) != 1: print(name, 'edit of %s matches %d times: %s' % (f, t.count(old), old[:60])); continue
                open(p, 'w').write(t.replace(old, new))
            r = subprocess.run(['ninja', '-C', tree + '/_build'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: print(name, 'does not build', r.stdout.decode()[-1500:]); continue
            r = subprocess.run(['meson', 'test', '-C', tree + '/_build', '--no-rebuild'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print(name, 'tests', r.returncode); sys.stdout.flush()
            for p in registry.PROPS:
                if not re.search(cp, p): continue
                r = subprocess.run(['python3', os.path.join(VERIF, 'check.py'), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, GDO_REPO=tree))
                out = r.stdout.decode('utf8', 'replace').strip().splitlines()
                print('%-10s %s %s %s' % (name, p, {0: 'quiet', 1: 'ALARM', 2: 'NO ANSWER'}.get(r.returncode, r.returncode), '' if r.returncode == 0 else '\n   '.join(x[:300] for x in out[:6]))); sys.stdout.flush()
        finally: shutil.rmtree(d)
if __name__ == '__main__': main()
