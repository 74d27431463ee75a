import sys; sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif/tools/seeds')
from mkseed import mkseed
from pre import *
DOC=FULL+r"""
static bool has(const std::string& s, const char* what) { return s.find(what) != std::string::npos; }
"""
TOOL=PRE+r"""
#include <fstream>
#include <sstream>
#define main tool
#include "config.cc"
#include "main.cc"
#undef main
#include <sys/wait.h>
#include <unistd.h>
static void spit(const char* f, const std::string& s) { std::ofstream(f, std::ios::binary) << s; }
static std::string slurp(const char* f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static int run(std::vector<const char*> args) {
    std::fflush(nullptr);
    pid_t p = fork();
    if (!p) {
        args.insert(args.begin(), "drafter");
        (void)!freopen("stdout", "wb", stdout); (void)!freopen("stderr", "wb", stderr);
        exit(tool(int(args.size()), args.data()));
    }
    int s = 0; waitpid(p, &s, 0); return WIFEXITED(s) ? WEXITSTATUS(s) : -1;
}
"""
CMD = '''-I'"$d"'/shim/cmdline'''
mkseed('output-behind-what-was','C34',[(DR+'stream.h','''        return std::ios_base::out | std::ios_base::binary;''','''        return std::ios_base::out | std::ios_base::binary | std::ios_base::app;''')],'an output file that is there already','the output is appended to it',TOOL+r"""
int main() {
    spit("in", "# A\n");
    run({ "-o", "out", "in" });
    std::string once = slurp("out");
    run({ "-o", "out", "in" });
    must(!once.empty() && slurp("out") == once, "the output is the same again");
}
""",full=True,flags=CMD)
mkseed('status-of-validation','C34',[(DR+'main.cc','''    return ret;
}''','''    return config.validate ? ret : EXIT_SUCCESS;
}''')],'a document with an error, without -l','the tool exits as if all were well',TOOL+r"""
int main() {
    spit("in", "# A\n\n# Data Structures\n\n## T (T)\n\n+ a\n");
    must(run({ "-l", "in" }) != 0, "an error, when validating");
    must(run({ "in" }) != 0, "an error");
}
""",full=True,flags=CMD)
mkseed('bracket-hidden-by-variable','C35',[(AP+'snowcrash/UriTemplateParser.cc','''        if (s.missing_expression_close) {''','''        if (s.missing_expression_close && result.report.warnings.empty()) {''')],'a URI template that has a fault before an expression without its bracket','the missing bracket is not remarked on',DOC+r"""
int main() {
    must(has(parsed("# A\n\n## R [/x/{id]\n\n### Do [GET]\n\n+ Response 204\n"), "missing closing bracket"), "alone");
    must(has(parsed("# A\n\n## R [/x y/{id]\n\n### Do [GET]\n\n+ Response 204\n"), "missing closing bracket"), "after another fault");
}
""",full=True)
mkseed('dots-in-pairs','C35',[(AP+'snowcrash/UriTemplateParser.cc','''                               pegtl::plus<
                                 pegtl::one<'.'>
                               >
                             > {};''','''                               pegtl::one<'.'>
                             > {};''')],'a variable with three dots in a row','the remark names two of them only',DOC+r"""
int main() {
    must(has(parsed("# A\n\n## R [/x/{a...b}]\n\n### Do [GET]\n\n+ Response 204\n"), "continuous dots '...'"), "all the dots are named");
}
""",full=True)
