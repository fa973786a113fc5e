// Pulls in the regular-expression parser and the non-template parts of the library. Never run.
#include <pdaaal/parsing/NfaParser.h>
#include <pdaaal/parsing/NfaParser.cpp>
#include <pdaaal/internal/PDA.cpp>
#include <pdaaal/internal/Reducer.cpp>
