// Runs every input.cq of the repository through the reference model and the real code and compares them.
#include <filesystem>
#include <iostream>
#include "real.hpp"
int main(int argc, char** argv) {
    int n = 0, bad = 0, accepted = 0, analysed = 0;
    for (auto& e : std::filesystem::recursive_directory_iterator(argv[1])) {
        if (e.path().extension() != ".cq") continue;
        if (e.path().string().find("v1x") != std::string::npos) continue;
        std::ifstream f(e.path(), std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        ++n;
        try {
            auto m = ref::parse(ss.str());
            auto r = cqasm::v3x::parser::parse_string(ss.str(), "input.cq");
            if (real::same_parse(ss.str(), m, r, "input.cq")) {
                ++accepted;
                auto a = real::fresh();
                auto mr = ref::analyze(*m.program);
                if (real::same_analysis(mr, a.analyze(r), "input.cq")) ++analysed;
            }
        } catch (const mc::Failure& x) {
            ++bad;
            std::cout << e.path().string() << ": " << x.what << "\n";
        } catch (const std::exception& x) {
            ++bad;
            std::cout << e.path().string() << ": exception " << x.what() << "\n";
        }
    }
    std::cout << n << " files, " << accepted << " parse, " << analysed << " analyse, " << bad << " differ\n";
}
