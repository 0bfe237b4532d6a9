// Parser of the variable table printed by jit_var_whos().
#pragma once
#include "common.h"

struct Row { std::string type, status, label; unsigned long refs = 0, size = 0; bool storage = false; };
inline bool is_num(const std::string &s) { return !s.empty() && s.find_first_not_of("0123456789") == std::string::npos; }

/// Parse the variable table of jit_var_whos()
inline bool parse_whos(const std::string &w, std::map<uint32_t, Row> &rows) {
    size_t p = w.find("====\n");
    if (p == std::string::npos) return false;
    p += 5;
    while (p < w.size()) {
        size_t e = w.find('\n', p);
        if (e == std::string::npos) return false;
        std::string l = w.substr(p, e - p);
        p = e + 1;
        if (l.compare(0, 6, "  ====") == 0) return true;
        if (l.find("No variables registered") != std::string::npos) continue;
        size_t sep = 0; std::vector<std::string> t; std::vector<size_t> endpos;
        while (sep < l.size()) {
            while (sep < l.size() && l[sep] == ' ') ++sep;
            size_t b = sep;
            while (sep < l.size() && l[sep] != ' ') ++sep;
            if (sep > b) { t.push_back(l.substr(b, sep - b)); endpos.push_back(sep); }
        }
        if (t.size() < 5 || !is_num(t[0])) return false;
        size_t k = 3; Row r; r.type = t[2];
        while (k < t.size() && !is_num(t[k])) { r.status += (r.status.empty() ? "" : " ") + t[k]; ++k; }
        if (k + 1 >= t.size() || !is_num(t[k + 1])) return false;
        r.refs = strtoul(t[k].c_str(), nullptr, 10); r.size = strtoul(t[k + 1].c_str(), nullptr, 10);
        size_t lab = endpos[k + 1] + 1 + 12 + 3;      // " %12s   %s"
        if (lab <= l.size()) { std::string st = l.substr(endpos[k + 1] + 1, 12); r.storage = st.find_first_not_of(' ') != std::string::npos; r.label = l.substr(lab); }
        rows[(uint32_t) strtoul(t[0].c_str(), nullptr, 10)] = r;
    }
    return false;
}
