----------------------------- MODULE EffortTable -----------------------------
(* Mean and standard deviation, for one run, of the number of evaluations  *)
(* (in tenths), of the miss (in hundredths) and of the failures (in        *)
(* thousandths), all dimensions together and for 2, 3, 4 and 5 variables.  *)
(* Measured once with tools/effort.py (20000 problems for each line).        *)
EXTENDS Integers, TLC
Table ==
  "cobyla free" :> <<[calls |-> <<811, 207>>, miss |-> <<3, 17>>, fails |-> <<0, 0>>],
    [calls |-> <<465, 114>>, miss |-> <<-1, 19>>, fails |-> <<0, 0>>],
    [calls |-> <<689, 168>>, miss |-> <<1, 17>>, fails |-> <<0, 0>>],
    [calls |-> <<920, 223>>, miss |-> <<4, 16>>, fails |-> <<0, 0>>],
    [calls |-> <<1169, 282>>, miss |-> <<8, 15>>, fails |-> <<0, 0>>]>> @@
  "cobyla constrained" :> <<[calls |-> <<733, 244>>, miss |-> <<-40, 103>>, fails |-> <<0, 0>>],
    [calls |-> <<397, 157>>, miss |-> <<-75, 130>>, fails |-> <<0, 0>>],
    [calls |-> <<619, 201>>, miss |-> <<-37, 100>>, fails |-> <<0, 0>>],
    [calls |-> <<839, 261>>, miss |-> <<-27, 92>>, fails |-> <<0, 0>>],
    [calls |-> <<1076, 324>>, miss |-> <<-20, 85>>, fails |-> <<0, 0>>]>> @@
  "cobyla vertex" :> <<[calls |-> <<316, 114>>, miss |-> <<-299, 15>>, fails |-> <<0, 4>>],
    [calls |-> <<188, 59>>, miss |-> <<-298, 21>>, fails |-> <<0, 0>>],
    [calls |-> <<273, 78>>, miss |-> <<-299, 12>>, fails |-> <<0, 0>>],
    [calls |-> <<359, 169>>, miss |-> <<-299, 14>>, fails |-> <<0, 7>>],
    [calls |-> <<443, 119>>, miss |-> <<-300, 9>>, fails |-> <<0, 0>>]>> @@
  "cobyla curved" :> <<[calls |-> <<11847, 4690>>, miss |-> <<214, 57>>, fails |-> <<184, 348>>],
    [calls |-> <<6736, 3312>>, miss |-> <<176, 24>>, fails |-> <<8, 88>>],
    [calls |-> <<11035, 4816>>, miss |-> <<201, 30>>, fails |-> <<33, 179>>],
    [calls |-> <<14180, 5291>>, miss |-> <<221, 45>>, fails |-> <<279, 449>>],
    [calls |-> <<15438, 5083>>, miss |-> <<258, 96>>, fails |-> <<414, 493>>]>> @@
  "cobyla narrow" :> <<[calls |-> <<3173, 1359>>, miss |-> <<451, 125>>, fails |-> <<715, 445>>],
    [calls |-> <<2691, 1688>>, miss |-> <<444, 128>>, fails |-> <<610, 488>>],
    [calls |-> <<3102, 1435>>, miss |-> <<447, 125>>, fails |-> <<692, 462>>],
    [calls |-> <<3355, 1216>>, miss |-> <<454, 123>>, fails |-> <<753, 432>>],
    [calls |-> <<3546, 1000>>, miss |-> <<459, 122>>, fails |-> <<807, 395>>]>> @@
  "cobyla nonsmooth" :> <<[calls |-> <<996, 514>>, miss |-> <<261, 186>>, fails |-> <<0, 15>>],
    [calls |-> <<537, 171>>, miss |-> <<143, 188>>, fails |-> <<0, 0>>],
    [calls |-> <<860, 635>>, miss |-> <<227, 199>>, fails |-> <<1, 25>>],
    [calls |-> <<1137, 482>>, miss |-> <<311, 188>>, fails |-> <<0, 7>>],
    [calls |-> <<1448, 627>>, miss |-> <<363, 169>>, fails |-> <<0, 14>>]>> @@
  "cobyla unbounded" :> <<[calls |-> <<600, 0>>, miss |-> <<-438, 48>>, fails |-> <<1000, 0>>],
    [calls |-> <<600, 0>>, miss |-> <<-442, 48>>, fails |-> <<1000, 0>>],
    [calls |-> <<600, 0>>, miss |-> <<-440, 48>>, fails |-> <<1000, 0>>],
    [calls |-> <<600, 0>>, miss |-> <<-437, 48>>, fails |-> <<1000, 0>>],
    [calls |-> <<600, 0>>, miss |-> <<-435, 48>>, fails |-> <<1000, 0>>]>> @@
  "newuoa quadratic" :> <<[calls |-> <<410, 101>>, miss |-> <<-197, 68>>, fails |-> <<0, 0>>],
    [calls |-> <<256, 47>>, miss |-> <<-255, 59>>, fails |-> <<0, 0>>],
    [calls |-> <<346, 73>>, miss |-> <<-213, 72>>, fails |-> <<0, 0>>],
    [calls |-> <<458, 107>>, miss |-> <<-173, 70>>, fails |-> <<0, 0>>],
    [calls |-> <<580, 148>>, miss |-> <<-146, 69>>, fails |-> <<0, 0>>]>> @@
  "newuoa curved" :> <<[calls |-> <<1358, 600>>, miss |-> <<-95, 142>>, fails |-> <<0, 0>>],
    [calls |-> <<644, 247>>, miss |-> <<-190, 96>>, fails |-> <<0, 0>>],
    [calls |-> <<1085, 420>>, miss |-> <<-130, 96>>, fails |-> <<0, 0>>],
    [calls |-> <<1617, 667>>, miss |-> <<-91, 89>>, fails |-> <<0, 0>>],
    [calls |-> <<2087, 871>>, miss |-> <<31, 233>>, fails |-> <<0, 0>>]>> @@
  "newuoa narrow" :> <<[calls |-> <<2858, 995>>, miss |-> <<201, 238>>, fails |-> <<372, 431>>],
    [calls |-> <<2018, 1186>>, miss |-> <<36, 265>>, fails |-> <<125, 331>>],
    [calls |-> <<2542, 1125>>, miss |-> <<131, 250>>, fails |-> <<237, 425>>],
    [calls |-> <<3181, 943>>, miss |-> <<263, 236>>, fails |-> <<421, 494>>],
    [calls |-> <<3693, 630>>, miss |-> <<374, 196>>, fails |-> <<704, 457>>]>> @@
  "newuoa nonsmooth" :> <<[calls |-> <<1106, 704>>, miss |-> <<-11, 113>>, fails |-> <<0, 5>>],
    [calls |-> <<465, 113>>, miss |-> <<-77, 50>>, fails |-> <<0, 0>>],
    [calls |-> <<817, 291>>, miss |-> <<-41, 60>>, fails |-> <<0, 0>>],
    [calls |-> <<1276, 690>>, miss |-> <<8, 125>>, fails |-> <<0, 0>>],
    [calls |-> <<1867, 1187>>, miss |-> <<67, 171>>, fails |-> <<0, 10>>]>> @@
  "newuoa waves" :> <<[calls |-> <<472, 76>>, miss |-> <<0, 0>>, fails |-> <<0, 0>>],
    [calls |-> <<281, 47>>, miss |-> <<0, 0>>, fails |-> <<0, 0>>],
    [calls |-> <<398, 62>>, miss |-> <<0, 0>>, fails |-> <<0, 0>>],
    [calls |-> <<532, 81>>, miss |-> <<0, 0>>, fails |-> <<0, 0>>],
    [calls |-> <<676, 102>>, miss |-> <<0, 0>>, fails |-> <<0, 0>>]>> @@
  "newuoa steps" :> <<[calls |-> <<592, 215>>, miss |-> <<0, 0>>, fails |-> <<6, 78>>],
    [calls |-> <<333, 81>>, miss |-> <<0, 0>>, fails |-> <<22, 147>>],
    [calls |-> <<503, 141>>, miss |-> <<0, 0>>, fails |-> <<2, 50>>],
    [calls |-> <<671, 222>>, miss |-> <<0, 0>>, fails |-> <<0, 12>>],
    [calls |-> <<860, 331>>, miss |-> <<0, 0>>, fails |-> <<0, 10>>]>> @@
  "newuoa unbounded" :> <<[calls |-> <<999, 18>>, miss |-> <<-6603, 897>>, fails |-> <<1000, 0>>],
    [calls |-> <<1000, 7>>, miss |-> <<-8098, 794>>, fails |-> <<1000, 0>>],
    [calls |-> <<1000, 10>>, miss |-> <<-7086, 919>>, fails |-> <<1000, 0>>],
    [calls |-> <<1000, 9>>, miss |-> <<-5957, 869>>, fails |-> <<1000, 0>>],
    [calls |-> <<997, 34>>, miss |-> <<-5271, 993>>, fails |-> <<1000, 0>>]>> @@
  "newuoa far" :> <<[calls |-> <<1580, 94>>, miss |-> <<-8180, 1690>>, fails |-> <<1000, 0>>],
    [calls |-> <<1575, 103>>, miss |-> <<-10474, 2031>>, fails |-> <<1000, 0>>],
    [calls |-> <<1570, 112>>, miss |-> <<-8997, 1798>>, fails |-> <<1000, 0>>],
    [calls |-> <<1591, 65>>, miss |-> <<-7220, 1451>>, fails |-> <<1000, 0>>],
    [calls |-> <<1586, 91>>, miss |-> <<-6030, 1402>>, fails |-> <<1000, 0>>]>> @@
  "bobyqa quadratic" :> <<[calls |-> <<330, 84>>, miss |-> <<-246, 72>>, fails |-> <<0, 8>>],
    [calls |-> <<200, 47>>, miss |-> <<-285, 46>>, fails |-> <<0, 0>>],
    [calls |-> <<282, 63>>, miss |-> <<-264, 67>>, fails |-> <<0, 0>>],
    [calls |-> <<371, 91>>, miss |-> <<-231, 82>>, fails |-> <<0, 7>>],
    [calls |-> <<468, 117>>, miss |-> <<-203, 88>>, fails |-> <<0, 14>>]>> @@
  "bobyqa vertex" :> <<[calls |-> <<244, 50>>, miss |-> <<-300, 0>>, fails |-> <<0, 20>>],
    [calls |-> <<177, 41>>, miss |-> <<-300, 0>>, fails |-> <<0, 0>>],
    [calls |-> <<232, 47>>, miss |-> <<-300, 0>>, fails |-> <<0, 0>>],
    [calls |-> <<266, 50>>, miss |-> <<-300, 0>>, fails |-> <<0, 14>>],
    [calls |-> <<301, 60>>, miss |-> <<-300, 0>>, fails |-> <<1, 37>>]>> @@
  "bobyqa curved" :> <<[calls |-> <<865, 514>>, miss |-> <<376, 273>>, fails |-> <<0, 0>>],
    [calls |-> <<456, 291>>, miss |-> <<240, 345>>, fails |-> <<0, 0>>],
    [calls |-> <<687, 403>>, miss |-> <<361, 289>>, fails |-> <<0, 0>>],
    [calls |-> <<989, 547>>, miss |-> <<428, 239>>, fails |-> <<0, 0>>],
    [calls |-> <<1328, 715>>, miss |-> <<474, 194>>, fails |-> <<0, 0>>]>> @@
  "bobyqa narrow" :> <<[calls |-> <<2460, 1209>>, miss |-> <<356, 261>>, fails |-> <<304, 432>>],
    [calls |-> <<1679, 1321>>, miss |-> <<215, 326>>, fails |-> <<128, 334>>],
    [calls |-> <<2169, 1284>>, miss |-> <<313, 294>>, fails |-> <<202, 401>>],
    [calls |-> <<2739, 1209>>, miss |-> <<418, 230>>, fails |-> <<347, 476>>],
    [calls |-> <<3254, 997>>, miss |-> <<479, 164>>, fails |-> <<540, 498>>]>> @@
  "bobyqa nonsmooth" :> <<[calls |-> <<685, 408>>, miss |-> <<-81, 130>>, fails |-> <<0, 4>>],
    [calls |-> <<313, 138>>, miss |-> <<-164, 121>>, fails |-> <<0, 0>>],
    [calls |-> <<526, 241>>, miss |-> <<-104, 117>>, fails |-> <<0, 0>>],
    [calls |-> <<790, 408>>, miss |-> <<-55, 123>>, fails |-> <<0, 0>>],
    [calls |-> <<1112, 650>>, miss |-> <<-2, 157>>, fails |-> <<0, 7>>]>> @@
  "bobyqa waves" :> <<[calls |-> <<447, 95>>, miss |-> <<0, 0>>, fails |-> <<0, 0>>],
    [calls |-> <<251, 53>>, miss |-> <<0, 0>>, fails |-> <<0, 0>>],
    [calls |-> <<374, 75>>, miss |-> <<0, 0>>, fails |-> <<0, 0>>],
    [calls |-> <<509, 102>>, miss |-> <<0, 0>>, fails |-> <<0, 0>>],
    [calls |-> <<653, 130>>, miss |-> <<0, 0>>, fails |-> <<0, 0>>]>> @@
  "bobyqa steps" :> <<[calls |-> <<370, 200>>, miss |-> <<0, 0>>, fails |-> <<18, 134>>],
    [calls |-> <<238, 51>>, miss |-> <<0, 0>>, fails |-> <<44, 204>>],
    [calls |-> <<328, 210>>, miss |-> <<0, 0>>, fails |-> <<16, 126>>],
    [calls |-> <<411, 223>>, miss |-> <<0, 0>>, fails |-> <<9, 94>>],
    [calls |-> <<503, 252>>, miss |-> <<0, 0>>, fails |-> <<5, 70>>]>> @@
  "bobyqa unbounded" :> <<[calls |-> <<535, 117>>, miss |-> <<-3291, 1525>>, fails |-> <<883, 310>>],
    [calls |-> <<466, 172>>, miss |-> <<-3337, 2005>>, fails |-> <<756, 430>>],
    [calls |-> <<528, 122>>, miss |-> <<-3409, 1548>>, fails |-> <<873, 333>>],
    [calls |-> <<562, 85>>, miss |-> <<-3312, 1255>>, fails |-> <<938, 242>>],
    [calls |-> <<583, 55>>, miss |-> <<-3106, 1147>>, fails |-> <<968, 177>>]>> @@
  "bobyqa far" :> <<[calls |-> <<948, 395>>, miss |-> <<-4862, 2405>>, fails |-> <<747, 422>>],
    [calls |-> <<815, 479>>, miss |-> <<-4325, 2790>>, fails |-> <<595, 491>>],
    [calls |-> <<916, 408>>, miss |-> <<-4861, 2457>>, fails |-> <<713, 452>>],
    [calls |-> <<994, 362>>, miss |-> <<-5087, 2226>>, fails |-> <<813, 390>>],
    [calls |-> <<1067, 310>>, miss |-> <<-5176, 2089>>, fails |-> <<869, 338>>]>>
=============================================================================
