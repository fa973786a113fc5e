// Pulls in the command-line tool (option handling, JSON parsers, verifier dispatch). Never run.
#include "main.cpp"
#include "parsing/Parsing.cpp"
// bodies of the non-template parts, for the effects of calls to them
#if __has_include(<pdaaal/internal/PDA.cpp>)
#include <pdaaal/internal/PDA.cpp>
#endif
#if __has_include(<pdaaal/internal/Reducer.cpp>)
#include <pdaaal/internal/Reducer.cpp>
#endif
