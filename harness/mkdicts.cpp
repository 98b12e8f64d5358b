// Writes the scratch dictionaries for the checks of the language bindings: mkdicts DIRECTORY
#include "api.hpp"
int main(int argc, char ** argv) {
	string r = argv[1];
	auto w = api::finnishWords(); w.push_back("-[Bc][Ln][Xp]maalla[X]maalla-"); api::finnish(r, "a", w); api::plain(r, "b", "xx");
	vf::dict(r, "c", "Language: yy-x-kuvaus\nDescription: p\xc3\xb6yt\xc3\xa4 \xf0\x9f\x98\x80\nMorphology-Backend: null\nSpeller-Backend: AllOk\nSuggestion-Backend: null\nHyphenator-Backend: AnalyzerToFinnishHyphenatorAdapter(currentAnalyzer)\nGrammar-Backend: null\n", {});
	vf::dict(r, "d", "Language: zz-x-rikki\nDescription: broken\n", {});
	if (argc > 2) { // words with several base forms of different length, for the readability statistics
		for (auto x : {"[Ln][Xp]tuli[X]tuli[Sn][Ny]", "[Lt][Xp]tulla[X]tuli[Tt][Ai][P3][Ny][Ef]", "[Ln][Xp]alus[X]alusta[Sp][Ny]", "[Ln][Xp]alkulainen[X]alusta[Sela][Ny]", "[Ln][Xp]opettaja[X]opet[Sn][Ny]", "[Ln][Xp]maatiainen[X]maa[Sg][Ny]", "[Ln][Xp]tie[X]tie[Sn][Ny]"}) w.push_back(x);
		api::finnish(r, "e", w);
	}
	return 0;
}
