// C02: bookkeeping of matches, candidates and features, for every bounded history
#include "synth_histories.hpp"

int main(int argc, char** argv)
{
    using namespace synth;
    std::vector<mc::Family> f;
    f.push_back({"single_map_histories",
                 [](bool t) { return mc::words_upto(LETTERS, t ? 6 : 5); },
                 [](mc::Ctx& ctx, uint64_t i) { run_single(ctx, mc::word_upto(i, LETTERS)); },
                 5});
    // start from populated maps too: each state reached by a short prefix that fills the map, then every suffix
    static const std::vector<std::vector<int>> prefixes = {
            {FRAME_A, FRAME_A, FRAME_A},
            {FRAME_AB, FRAME_AB, FRAME_AB},
            {FRAME_AA, FRAME_AA, FRAME_AA, FRAME_AB},
            {FRAME_WW, FRAME_WW, FRAME_WW},
            {FRAME_A, FRAME_A, FRAME_A, FRAME_NONE},
    };
    f.push_back({"populated_map_histories",
                 [](bool t) { return prefixes.size() * mc::words_upto(LETTERS, t ? 5 : 4); },
                 [](mc::Ctx& ctx, uint64_t i) {
                     mc::Dec d(i);
                     std::vector<int> w = prefixes[d(prefixes.size())];
                     for (const int l: mc::word_upto(d.v, LETTERS))
                         w.push_back(l);
                     run_single(ctx, w);
                 },
                 5});
    // maps that ask for more than one match: the enlarged search and the candidates compete with found matches
    f.push_back({"demanding_map_histories",
                 [](bool t) { return 2 * (prefixes.size() + 1) * mc::words_upto(LETTERS, t ? 4 : 3); },
                 [](mc::Ctx& ctx, uint64_t i) {
                     mc::Dec d(i);
                     const size_t minimum = 2 + d(2);
                     const size_t p = d(prefixes.size() + 1);
                     std::vector<int> w = p ? prefixes[p - 1] : std::vector<int> {};
                     for (const int l: mc::word_upto(d.v, LETTERS))
                         w.push_back(l);
                     run_single(ctx, w, minimum);
                 },
                 5});
    f.push_back({"composed_map_histories",
                 [](bool t) { return prefixes2.size() * mc::words_upto(LETTERS2, t ? 5 : 4); },
                 [](mc::Ctx& ctx, uint64_t i) {
                     mc::Dec d(i);
                     std::vector<int> w = prefixes2[d(prefixes2.size())];
                     for (const int l: mc::word_upto(d.v, LETTERS2))
                         w.push_back(l);
                     run_composed(ctx, w);
                 },
                 5});
    f.push_back({"demanding_composed_histories",
                 [](bool t) { return prefixes2.size() * mc::words_upto(LETTERS2, t ? 4 : 3); },
                 [](mc::Ctx& ctx, uint64_t i) {
                     mc::Dec d(i);
                     std::vector<int> w = prefixes2[d(prefixes2.size())];
                     for (const int l: mc::word_upto(d.v, LETTERS2))
                         w.push_back(l);
                     run_composed(ctx, w, 2);
                 },
                 5});
    return mc::main_(argc, argv, f);
}
