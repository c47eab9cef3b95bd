----------------------------- MODULE LitTokens ------------------------------
(* written by tools/mklits.py: heads and tokens of the enumerated literals *)
Groups == {"bounds", "uncertain", "hex", "deco", "expo"}
Heads(g) == CASE g = "bounds" -> {<<91>>}
     [] g = "uncertain" -> {<<49>>, <<45, 50, 46, 53>>, <<43, 51, 46>>, <<46>>, <<>>}
     [] g = "hex" -> {<<91, 48, 120>>, <<91, 45, 48, 88>>, <<91, 48, 120, 49, 112, 50, 44>>}
     [] g = "deco" -> {<<91, 49, 44, 50, 93>>, <<91, 46, 53, 93>>, <<91, 32, 93>>, <<91, 101, 109, 112, 116, 121>>, <<91, 110, 97, 105>>, <<91, 101, 110, 116, 105, 114, 101>>, <<53, 63>>, <<91, 49, 44, 105, 110, 102, 93>>, <<53, 63, 63>>, <<91, 45, 49, 101, 57, 44, 49, 47, 51, 93>>, <<55, 63, 63, 117>>}
     [] g = "expo" -> {<<91>>, <<91, 45, 49, 101>>}
Tokens(g) == CASE g = "bounds" -> {<<49>>, <<50, 46, 53>>, <<45>>, <<43>>, <<44>>, <<93>>, <<105, 110, 102>>, <<32>>, <<47>>}
     [] g = "uncertain" -> {<<63>>, <<55>>, <<117>>, <<100>>, <<101>>, <<45>>, <<48>>, <<95, 99, 111, 109>>}
     [] g = "hex" -> {<<49>>, <<97, 46>>, <<112>>, <<80, 45>>, <<51>>, <<48, 120>>, <<93>>, <<44>>}
     [] g = "deco" -> {<<93>>, <<95>>, <<99, 111, 109>>, <<100, 97, 99>>, <<116, 114, 118>>, <<100, 101, 102>>, <<105, 108, 108>>, <<52>>, <<49, 54>>, <<32>>, <<48>>}
     [] g = "expo" -> {<<49>>, <<101>>, <<69, 43>>, <<45>>, <<46>>, <<48>>, <<93>>}
=============================================================================
