------------------------------ MODULE Pool_MC ------------------------------
EXTENDS Pool
CONSTANT Family
MCPrograms == CASE Family = 1 -> << <<"use", "flush">>, <<"len", "use">>, <<"stop", "start", "len">> >>
                [] Family = 2 -> << <<"len", "len">>, <<"len", "stop">>, <<"start", "flush">> >>
                [] Family = 3 -> << <<"flush", "len">>, <<"flush", "use">>, <<"len", "use">> >>
                [] OTHER -> << <<"stop", "len", "start">>, <<"stop", "start">>, <<"use", "len">> >>
=============================================================================
