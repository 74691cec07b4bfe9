---- MODULE ExtTables ----
EXTENDS Integers
\* Generated by tools/mkext.py.  f: function, k: its parameter, x: argument, y: value, g: derivative,
\* w: units in the last place, s: 1 when the unit is at least that of numbers next to one.
\* A number is <<sign, mantissa, exponent>>; mantissa -1: infinite, -2: no derivative.
Cases == <<
[f|->"exp",k|->0,x|-><<-1,14791142,104>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,13234890,76>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,11368684,43>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,14901161,26>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,9765625,10>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,15432099,3>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,16000000,-4>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,8388608,-7>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,10240000,-10>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,8388608,-11>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,16384000,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,13107200,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,12206080,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,11640832,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,11624448,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,16384000,-15>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,13107200,-16>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,9830400,-16>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,8388608,-16>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,13107200,-17>>,y|-><<1,13918457,-168>>,g|-><<1,13918457,-168>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,12451840,-17>>,y|-><<1,16138142,-161>>,g|-><<1,16138142,-161>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,11730944,-17>>,y|-><<1,15425285,-153>>,g|-><<1,15425285,-153>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,11599872,-17>>,y|-><<1,10482568,-151>>,g|-><<1,10482568,-151>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,11403264,-17>>,y|-><<1,11744903,-149>>,g|-><<1,11744903,-149>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,10485760,-17>>,y|-><<1,12577978,-139>>,g|-><<1,12577978,-139>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,8388608,-17>>,y|-><<1,13323940,-116>>,g|-><<1,13323940,-116>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,13107200,-18>>,y|-><<1,15281131,-96>>,g|-><<1,15281131,-96>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,11272192,-18>>,y|-><<1,16365034,-86>>,g|-><<1,16365034,-86>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,15728640,-19>>,y|-><<1,13809414,-67>>,g|-><<1,13809414,-67>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,10485760,-19>>,y|-><<1,9282611,-52>>,g|-><<1,9282611,-52>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,8650752,-19>>,y|-><<1,9606183,-47>>,g|-><<1,9606183,-47>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,16252928,-20>>,y|-><<1,13056156,-46>>,g|-><<1,13056156,-46>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,10485760,-20>>,y|-><<1,12479438,-38>>,g|-><<1,12479438,-38>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,8388608,-20>>,y|-><<1,11526408,-35>>,g|-><<1,11526408,-35>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,10485760,-21>>,y|-><<1,14469631,-31>>,g|-><<1,14469631,-31>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,12582912,-22>>,y|-><<1,13364614,-28>>,g|-><<1,13364614,-28>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,8388608,-22>>,y|-><<1,9082197,-26>>,g|-><<1,9082197,-26>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,12582912,-23>>,y|-><<1,14974012,-26>>,g|-><<1,14974012,-26>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,8388608,-23>>,y|-><<1,12343986,-25>>,g|-><<1,12343986,-25>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,12582912,-24>>,y|-><<1,15849991,-25>>,g|-><<1,15849991,-25>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,8388608,-24>>,y|-><<1,10175896,-24>>,g|-><<1,10175896,-24>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,8388608,-25>>,y|-><<1,13066109,-24>>,g|-><<1,13066109,-24>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,13421773,-27>>,y|-><<1,15180653,-24>>,g|-><<1,15180653,-24>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,8589935,-33>>,y|-><<1,16760447,-24>>,g|-><<1,16760447,-24>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,8388608,-43>>,y|-><<1,16777200,-24>>,g|-><<1,16777200,-24>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<-1,8388608,-63>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<0,0,0>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,8388608,-63>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,8388608,-43>>,y|-><<1,8388616,-23>>,g|-><<1,8388616,-23>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,8589935,-33>>,y|-><<1,8397001,-23>>,g|-><<1,8397001,-23>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,13421773,-27>>,y|-><<1,9270846,-23>>,g|-><<1,9270846,-23>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,8388608,-25>>,y|-><<1,10771186,-23>>,g|-><<1,10771186,-23>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,8388608,-24>>,y|-><<1,13830476,-23>>,g|-><<1,13830476,-23>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,12582912,-24>>,y|-><<1,8879342,-22>>,g|-><<1,8879342,-22>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,8388608,-23>>,y|-><<1,11401300,-22>>,g|-><<1,11401300,-22>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,12582912,-23>>,y|-><<1,9398783,-21>>,g|-><<1,9398783,-21>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,8388608,-22>>,y|-><<1,15495974,-21>>,g|-><<1,15495974,-21>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,12582912,-22>>,y|-><<1,10530606,-19>>,g|-><<1,10530606,-19>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,10485760,-21>>,y|-><<1,9726405,-16>>,g|-><<1,9726405,-16>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,8388608,-20>>,y|-><<1,12210004,-12>>,g|-><<1,12210004,-12>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,10485760,-20>>,y|-><<1,11277550,-9>>,g|-><<1,11277550,-9>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,16252928,-20>>,y|-><<1,10779397,-1>>,g|-><<1,10779397,-1>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,8650752,-19>>,y|-><<1,14650719,0>>,g|-><<1,14650719,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,10485760,-19>>,y|-><<1,15161412,5>>,g|-><<1,15161412,5>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,15728640,-19>>,y|-><<1,10191416,20>>,g|-><<1,10191416,20>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,11272192,-18>>,y|-><<1,8599890,39>>,g|-><<1,8599890,39>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,13107200,-18>>,y|-><<1,9209887,49>>,g|-><<1,9209887,49>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,8388608,-17>>,y|-><<1,10562753,69>>,g|-><<1,10562753,69>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,10485760,-17>>,y|-><<1,11189198,92>>,g|-><<1,11189198,92>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,11403264,-17>>,y|-><<1,11982857,102>>,g|-><<1,11982857,102>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,11599872,-17>>,y|-><<1,13425860,104>>,g|-><<1,13425860,104>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,11730944,-17>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,12451840,-17>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,13107200,-17>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,8388608,-16>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,9830400,-16>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,13107200,-16>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,16384000,-15>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,11624448,-14>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,11640832,-14>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,12206080,-14>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,13107200,-14>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,16384000,-14>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,8388608,-11>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,10240000,-10>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,8388608,-7>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,16000000,-4>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,15432099,3>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,9765625,10>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,14901161,26>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,11368684,43>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,13234890,76>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,14791142,104>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,8388608,-172>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,8388608,-163>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,8388608,-149>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,10633824,-123>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,12379400,-90>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"exp",k|->0,x|-><<1,14411519,-57>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,8388608,-63>>,y|-><<-1,14536350,-19>>,g|-><<1,8388608,17>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,8388608,-43>>,y|-><<-1,14536350,-20>>,g|-><<1,8388608,-3>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,8589935,-33>>,y|-><<-1,14486613,-21>>,g|-><<1,16383999,-14>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,13421773,-27>>,y|-><<-1,9657742,-22>>,g|-><<1,10485760,-20>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,8388608,-25>>,y|-><<-1,11629080,-23>>,g|-><<1,8388608,-21>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,8388608,-24>>,y|-><<-1,11629080,-24>>,g|-><<1,8388608,-22>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,12582912,-24>>,y|-><<-1,9653009,-25>>,g|-><<1,11184811,-23>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,8388608,-23>>,y|-><<0,0,0>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,12582912,-23>>,y|-><<1,13605151,-25>>,g|-><<1,11184811,-24>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,8388608,-22>>,y|-><<1,11629080,-24>>,g|-><<1,8388608,-24>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,12582912,-22>>,y|-><<1,9215828,-23>>,g|-><<1,11184811,-25>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,10485760,-21>>,y|-><<1,13500944,-23>>,g|-><<1,13421773,-26>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,8388608,-20>>,y|-><<1,8721810,-22>>,g|-><<1,8388608,-26>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,10485760,-20>>,y|-><<1,9657742,-22>>,g|-><<1,13421773,-27>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,16252928,-20>>,y|-><<1,11495916,-22>>,g|-><<1,8659208,-27>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,8650752,-19>>,y|-><<1,11758146,-22>>,g|-><<1,16268816,-28>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,10485760,-19>>,y|-><<1,12565012,-22>>,g|-><<1,13421773,-28>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,15728640,-19>>,y|-><<1,14265656,-22>>,g|-><<1,8947849,-28>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,11272192,-18>>,y|-><<1,15775617,-22>>,g|-><<1,12485370,-29>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,13107200,-18>>,y|-><<1,16408214,-22>>,g|-><<1,10737418,-29>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,8388608,-17>>,y|-><<1,8721810,-21>>,g|-><<1,8388608,-29>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,10485760,-17>>,y|-><<1,9189776,-21>>,g|-><<1,13421773,-30>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,11403264,-17>>,y|-><<1,9365688,-21>>,g|-><<1,12341860,-30>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,11599872,-17>>,y|-><<1,9401538,-21>>,g|-><<1,12132676,-30>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,11730944,-17>>,y|-><<1,9425102,-21>>,g|-><<1,11997115,-30>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,12451840,-17>>,y|-><<1,9550172,-21>>,g|-><<1,11302546,-30>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,13107200,-17>>,y|-><<1,9657742,-21>>,g|-><<1,10737418,-30>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,8388608,-16>>,y|-><<1,10175445,-21>>,g|-><<1,8388608,-30>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,9830400,-16>>,y|-><<1,10508064,-21>>,g|-><<1,14316558,-31>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,13107200,-16>>,y|-><<1,11111377,-21>>,g|-><<1,10737418,-31>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,16384000,-15>>,y|-><<1,13032978,-21>>,g|-><<1,8589935,-32>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,11624448,-14>>,y|-><<1,13766881,-21>>,g|-><<1,12107025,-33>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,11640832,-14>>,y|-><<1,13769835,-21>>,g|-><<1,12089985,-33>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,12206080,-14>>,y|-><<1,13869272,-21>>,g|-><<1,11530114,-33>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,13107200,-14>>,y|-><<1,14018647,-21>>,g|-><<1,10737418,-33>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,16384000,-14>>,y|-><<1,14486613,-21>>,g|-><<1,8589935,-33>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,8388608,-11>>,y|-><<1,8721810,-20>>,g|-><<1,8388608,-35>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,10240000,-10>>,y|-><<1,9657742,-20>>,g|-><<1,13743895,-37>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,8388608,-7>>,y|-><<1,11629080,-20>>,g|-><<1,8388608,-39>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,16000000,-4>>,y|-><<1,14486613,-20>>,g|-><<1,8796093,-43>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,15432099,3>>,y|-><<1,9768220,-19>>,g|-><<1,9119789,-50>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,9765625,10>>,y|-><<1,12072177,-19>>,g|-><<1,14411519,-57>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,14901161,26>>,y|-><<1,9054133,-18>>,g|-><<1,9444733,-73>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,11368684,43>>,y|-><<1,12072177,-18>>,g|-><<1,12379400,-90>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,13234890,76>>,y|-><<1,9054133,-17>>,g|-><<1,10633824,-123>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,14791142,104>>,y|-><<1,11612566,-17>>,g|-><<1,9514985,-151>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,8388608,-172>>,y|-><<-1,13536976,-17>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,8388608,-163>>,y|-><<-1,12719306,-17>>,g|-><<1,-1,0>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,8388608,-149>>,y|-><<-1,11447376,-17>>,g|-><<1,8388608,103>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,10633824,-123>>,y|-><<-1,9054133,-17>>,g|-><<1,13234890,76>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,12379400,-90>>,y|-><<-1,12072177,-18>>,g|-><<1,11368684,43>>,w|->4,s|->0],
[f|->"ln",k|->0,x|-><<1,14411519,-57>>,y|-><<-1,12072177,-19>>,g|-><<1,9765625,10>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<0,0,0>>,y|-><<0,0,0>>,g|-><<0,-2,0>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,8388608,-63>>,y|-><<1,8388608,-43>>,g|-><<1,8388608,-4>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,8388608,-43>>,y|-><<1,8388608,-33>>,g|-><<1,8388608,-14>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,8589935,-33>>,y|-><<1,8488675,-28>>,g|-><<1,16579442,-20>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,13421773,-27>>,y|-><<1,10610843,-25>>,g|-><<1,13263554,-23>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,8388608,-25>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,8388608,-24>>,y|-><<1,11863283,-24>>,g|-><<1,11863283,-24>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,12582912,-24>>,y|-><<1,14529495,-24>>,g|-><<1,9686330,-24>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-24>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,12582912,-23>>,y|-><<1,10273905,-23>>,g|-><<1,13698540,-25>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,8388608,-22>>,y|-><<1,11863283,-23>>,g|-><<1,11863283,-25>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,12582912,-22>>,y|-><<1,14529495,-23>>,g|-><<1,9686330,-25>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,10485760,-21>>,y|-><<1,9378749,-22>>,g|-><<1,15005998,-26>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,8388608,-20>>,y|-><<1,11863283,-22>>,g|-><<1,11863283,-26>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,10485760,-20>>,y|-><<1,13263554,-22>>,g|-><<1,10610843,-26>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,16252928,-20>>,y|-><<1,16512991,-22>>,g|-><<1,8522834,-26>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,8650752,-19>>,y|-><<1,8518672,-21>>,g|-><<1,16521060,-27>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,10485760,-19>>,y|-><<1,9378749,-21>>,g|-><<1,15005998,-27>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,15728640,-19>>,y|-><<1,11486575,-21>>,g|-><<1,12252346,-27>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,11272192,-18>>,y|-><<1,13751945,-21>>,g|-><<1,10234006,-27>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,13107200,-18>>,y|-><<1,14829104,-21>>,g|-><<1,9490627,-27>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,8388608,-17>>,y|-><<1,8388608,-20>>,g|-><<1,8388608,-27>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,10485760,-17>>,y|-><<1,9378749,-20>>,g|-><<1,15005998,-28>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,11403264,-17>>,y|-><<1,9780466,-20>>,g|-><<1,14389651,-28>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,11599872,-17>>,y|-><<1,9864420,-20>>,g|-><<1,14267184,-28>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,11730944,-17>>,y|-><<1,9919994,-20>>,g|-><<1,14187255,-28>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,12451840,-17>>,y|-><<1,10220255,-20>>,g|-><<1,13770448,-28>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,13107200,-17>>,y|-><<1,10485760,-20>>,g|-><<1,13421773,-28>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,8388608,-16>>,y|-><<1,11863283,-20>>,g|-><<1,11863283,-28>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,9830400,-16>>,y|-><<1,12842381,-20>>,g|-><<1,10958832,-28>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,13107200,-16>>,y|-><<1,14829104,-20>>,g|-><<1,9490627,-28>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,16384000,-15>>,y|-><<1,11723436,-19>>,g|-><<1,12004799,-29>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,11624448,-14>>,y|-><<1,13965166,-19>>,g|-><<1,10077752,-29>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,11640832,-14>>,y|-><<1,13975005,-19>>,g|-><<1,10070658,-29>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,12206080,-14>>,y|-><<1,14310277,-19>>,g|-><<1,9834714,-29>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,13107200,-14>>,y|-><<1,14829104,-19>>,g|-><<1,9490627,-29>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,16384000,-14>>,y|-><<1,16579442,-19>>,g|-><<1,8488674,-29>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,8388608,-11>>,y|-><<1,8388608,-17>>,g|-><<1,8388608,-30>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,10240000,-10>>,y|-><<1,13107200,-17>>,g|-><<1,10737418,-31>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,8388608,-7>>,y|-><<1,8388608,-15>>,g|-><<1,8388608,-32>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,16000000,-4>>,y|-><<1,16384000,-14>>,g|-><<1,8589935,-34>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,15432099,3>>,y|-><<1,11377778,-10>>,g|-><<1,12369506,-38>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,9765625,10>>,y|-><<1,12800000,-7>>,g|-><<1,10995116,-41>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,14901161,26>>,y|-><<1,15811388,1>>,g|-><<1,8901020,-49>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,11368684,43>>,y|-><<1,9765625,10>>,g|-><<1,14411519,-58>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,13234890,76>>,y|-><<1,14901161,26>>,g|-><<1,9444733,-74>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,14791142,104>>,y|-><<1,15752910,40>>,g|-><<1,8934063,-88>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,8388608,-172>>,y|-><<1,11863283,-98>>,g|-><<1,11863283,50>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,8388608,-163>>,y|-><<1,8388608,-93>>,g|-><<1,8388608,46>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,8388608,-149>>,y|-><<1,8388608,-86>>,g|-><<1,8388608,39>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,10633824,-123>>,y|-><<1,9444733,-73>>,g|-><<1,14901161,25>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,12379400,-90>>,y|-><<1,14411519,-57>>,g|-><<1,9765625,9>>,w|->4,s|->0],
[f|->"sqrt",k|->0,x|-><<1,14411519,-57>>,y|-><<1,10995116,-40>>,g|-><<1,12800000,-8>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,14791142,104>>,y|-><<-1,14678468,-24>>,g|-><<-1,16250236,-25>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,13234890,76>>,y|-><<1,13273520,-24>>,g|-><<-1,10261026,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,11368684,43>>,y|-><<-1,11015529,-24>>,g|-><<1,12654371,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,14901161,26>>,y|-><<-1,16683839,-24>>,g|-><<1,14140976,-27>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,9765625,10>>,y|-><<1,16357988,-25>>,g|-><<1,14648517,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,15432099,3>>,y|-><<1,16113052,-24>>,g|-><<-1,9347628,-25>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,16000000,-4>>,y|-><<1,11743833,-25>>,g|-><<1,15716093,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,8388608,-7>>,y|-><<-1,11610932,-24>>,g|-><<-1,12110378,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,10240000,-10>>,y|-><<1,10254717,-25>>,g|-><<-1,15974516,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,8388608,-11>>,y|-><<1,9976437,-24>>,g|-><<1,13488724,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,16384000,-14>>,y|-><<-1,13872737,-24>>,g|-><<1,9435155,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,13107200,-14>>,y|-><<-1,14998322,-24>>,g|-><<-1,15036664,-25>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,12206080,-14>>,y|-><<1,14369254,-25>>,g|-><<-1,15161006,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,11640832,-14>>,y|-><<-1,16088627,-25>>,g|-><<1,14722907,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,11624448,-14>>,y|-><<1,16085076,-25>>,g|-><<1,14723877,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,16384000,-15>>,y|-><<1,15695817,-25>>,g|-><<-1,14828530,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,13107200,-16>>,y|-><<1,14651497,-24>>,g|-><<1,16347306,-25>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,9830400,-16>>,y|-><<1,11993636,-24>>,g|-><<1,11731482,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,8388608,-16>>,y|-><<-1,12097005,-24>>,g|-><<-1,11624863,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,13107200,-17>>,y|-><<1,8495406,-24>>,g|-><<1,14467310,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,12451840,-17>>,y|-><<-1,11463229,-24>>,g|-><<1,12250280,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,11730944,-17>>,y|-><<-1,16766710,-24>>,g|-><<1,9498116,-28>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,11599872,-17>>,y|-><<-1,8559568,-24>>,g|-><<1,14429441,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,11403264,-17>>,y|-><<1,13787815,-24>>,g|-><<1,9558824,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,10485760,-17>>,y|-><<1,16674685,-24>>,g|-><<-1,14815925,-27>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,8388608,-17>>,y|-><<-1,15435476,-24>>,g|-><<1,13148547,-25>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,13107200,-18>>,y|-><<1,8803839,-25>>,g|-><<1,16189443,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,11272192,-18>>,y|-><<1,13954865,-24>>,g|-><<1,9313256,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,15728640,-19>>,y|-><<1,16576420,-24>>,g|-><<1,10351640,-26>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,10485760,-19>>,y|-><<-1,15316680,-24>>,g|-><<1,13692962,-25>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,8650752,-19>>,y|-><<1,11941776,-24>>,g|-><<-1,11784267,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,16252928,-20>>,y|-><<-1,13855798,-26>>,g|-><<-1,16415725,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,10485760,-20>>,y|-><<1,9127160,-24>>,g|-><<-1,14077284,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,8388608,-20>>,y|-><<-1,16598677,-24>>,g|-><<-1,9764342,-26>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,10485760,-21>>,y|-><<1,16088080,-24>>,g|-><<1,9518124,-25>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,12582912,-22>>,y|-><<-1,9470403,-26>>,g|-><<-1,16609318,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,8388608,-22>>,y|-><<-1,15255479,-24>>,g|-><<-1,13963571,-25>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,12582912,-23>>,y|-><<-1,16735189,-24>>,g|-><<1,9494186,-27>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,8388608,-23>>,y|-><<-1,14117540,-24>>,g|-><<1,9064768,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,12582912,-24>>,y|-><<-1,11436001,-24>>,g|-><<1,12275702,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,8388608,-24>>,y|-><<-1,16086852,-25>>,g|-><<1,14723392,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,8388608,-25>>,y|-><<-1,16602999,-26>>,g|-><<1,16255653,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,13421773,-27>>,y|-><<-1,13399415,-27>>,g|-><<1,16693400,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,8589935,-33>>,y|-><<-1,8589934,-33>>,g|-><<1,16777208,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,8388608,-43>>,y|-><<-1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<-1,8388608,-63>>,y|-><<-1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<0,0,0>>,y|-><<0,0,0>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,8388608,-63>>,y|-><<1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,8388608,-43>>,y|-><<1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,8589935,-33>>,y|-><<1,8589934,-33>>,g|-><<1,16777208,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,13421773,-27>>,y|-><<1,13399415,-27>>,g|-><<1,16693400,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,8388608,-25>>,y|-><<1,16602999,-26>>,g|-><<1,16255653,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,8388608,-24>>,y|-><<1,16086852,-25>>,g|-><<1,14723392,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,12582912,-24>>,y|-><<1,11436001,-24>>,g|-><<1,12275702,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,8388608,-23>>,y|-><<1,14117540,-24>>,g|-><<1,9064768,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,12582912,-23>>,y|-><<1,16735189,-24>>,g|-><<1,9494186,-27>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,8388608,-22>>,y|-><<1,15255479,-24>>,g|-><<-1,13963571,-25>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,12582912,-22>>,y|-><<1,9470403,-26>>,g|-><<-1,16609318,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,10485760,-21>>,y|-><<-1,16088080,-24>>,g|-><<1,9518124,-25>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,8388608,-20>>,y|-><<1,16598677,-24>>,g|-><<-1,9764342,-26>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,10485760,-20>>,y|-><<-1,9127160,-24>>,g|-><<-1,14077284,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,16252928,-20>>,y|-><<1,13855798,-26>>,g|-><<-1,16415725,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,8650752,-19>>,y|-><<-1,11941776,-24>>,g|-><<-1,11784267,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,10485760,-19>>,y|-><<1,15316680,-24>>,g|-><<1,13692962,-25>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,15728640,-19>>,y|-><<-1,16576420,-24>>,g|-><<1,10351640,-26>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,11272192,-18>>,y|-><<-1,13954865,-24>>,g|-><<1,9313256,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,13107200,-18>>,y|-><<-1,8803839,-25>>,g|-><<1,16189443,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,8388608,-17>>,y|-><<1,15435476,-24>>,g|-><<1,13148547,-25>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,10485760,-17>>,y|-><<-1,16674685,-24>>,g|-><<-1,14815925,-27>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,11403264,-17>>,y|-><<-1,13787815,-24>>,g|-><<1,9558824,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,11599872,-17>>,y|-><<1,8559568,-24>>,g|-><<1,14429441,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,11730944,-17>>,y|-><<1,16766710,-24>>,g|-><<1,9498116,-28>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,12451840,-17>>,y|-><<1,11463229,-24>>,g|-><<1,12250280,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,13107200,-17>>,y|-><<-1,8495406,-24>>,g|-><<1,14467310,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,8388608,-16>>,y|-><<1,12097005,-24>>,g|-><<-1,11624863,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,9830400,-16>>,y|-><<-1,11993636,-24>>,g|-><<1,11731482,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,13107200,-16>>,y|-><<-1,14651497,-24>>,g|-><<1,16347306,-25>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,16384000,-15>>,y|-><<-1,15695817,-25>>,g|-><<-1,14828530,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,11624448,-14>>,y|-><<-1,16085076,-25>>,g|-><<1,14723877,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,11640832,-14>>,y|-><<1,16088627,-25>>,g|-><<1,14722907,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,12206080,-14>>,y|-><<-1,14369254,-25>>,g|-><<-1,15161006,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,13107200,-14>>,y|-><<1,14998322,-24>>,g|-><<-1,15036664,-25>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,16384000,-14>>,y|-><<1,13872737,-24>>,g|-><<1,9435155,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,8388608,-11>>,y|-><<-1,9976437,-24>>,g|-><<1,13488724,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,10240000,-10>>,y|-><<-1,10254717,-25>>,g|-><<-1,15974516,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,8388608,-7>>,y|-><<1,11610932,-24>>,g|-><<-1,12110378,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,16000000,-4>>,y|-><<-1,11743833,-25>>,g|-><<1,15716093,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,15432099,3>>,y|-><<-1,16113052,-24>>,g|-><<-1,9347628,-25>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,9765625,10>>,y|-><<-1,16357988,-25>>,g|-><<1,14648517,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,14901161,26>>,y|-><<1,16683839,-24>>,g|-><<1,14140976,-27>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,11368684,43>>,y|-><<1,11015529,-24>>,g|-><<1,12654371,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,13234890,76>>,y|-><<-1,13273520,-24>>,g|-><<-1,10261026,-24>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,14791142,104>>,y|-><<1,14678468,-24>>,g|-><<-1,16250236,-25>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,8388608,-172>>,y|-><<1,8388608,-172>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,8388608,-163>>,y|-><<1,8388608,-163>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,8388608,-149>>,y|-><<1,8388608,-149>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,10633824,-123>>,y|-><<1,10633824,-123>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,12379400,-90>>,y|-><<1,12379400,-90>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"sin",k|->0,x|-><<1,14411519,-57>>,y|-><<1,14411519,-57>>,g|-><<1,8388608,-23>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,14791142,104>>,y|-><<-1,16250236,-25>>,g|-><<1,14678468,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,13234890,76>>,y|-><<-1,10261026,-24>>,g|-><<-1,13273520,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,11368684,43>>,y|-><<1,12654371,-24>>,g|-><<1,11015529,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,14901161,26>>,y|-><<1,14140976,-27>>,g|-><<1,16683839,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,9765625,10>>,y|-><<1,14648517,-24>>,g|-><<-1,16357988,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,15432099,3>>,y|-><<-1,9347628,-25>>,g|-><<-1,16113052,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,16000000,-4>>,y|-><<1,15716093,-24>>,g|-><<-1,11743833,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,8388608,-7>>,y|-><<-1,12110378,-24>>,g|-><<1,11610932,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,10240000,-10>>,y|-><<-1,15974516,-24>>,g|-><<-1,10254717,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,8388608,-11>>,y|-><<1,13488724,-24>>,g|-><<-1,9976437,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,16384000,-14>>,y|-><<1,9435155,-24>>,g|-><<1,13872737,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,13107200,-14>>,y|-><<-1,15036664,-25>>,g|-><<1,14998322,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,12206080,-14>>,y|-><<-1,15161006,-24>>,g|-><<-1,14369254,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,11640832,-14>>,y|-><<1,14722907,-24>>,g|-><<1,16088627,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,11624448,-14>>,y|-><<1,14723877,-24>>,g|-><<-1,16085076,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,16384000,-15>>,y|-><<-1,14828530,-24>>,g|-><<-1,15695817,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,13107200,-16>>,y|-><<1,16347306,-25>>,g|-><<-1,14651497,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,9830400,-16>>,y|-><<1,11731482,-24>>,g|-><<-1,11993636,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,8388608,-16>>,y|-><<-1,11624863,-24>>,g|-><<1,12097005,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,13107200,-17>>,y|-><<1,14467310,-24>>,g|-><<-1,8495406,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,12451840,-17>>,y|-><<1,12250280,-24>>,g|-><<1,11463229,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,11730944,-17>>,y|-><<1,9498116,-28>>,g|-><<1,16766710,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,11599872,-17>>,y|-><<1,14429441,-24>>,g|-><<1,8559568,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,11403264,-17>>,y|-><<1,9558824,-24>>,g|-><<-1,13787815,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,10485760,-17>>,y|-><<-1,14815925,-27>>,g|-><<-1,16674685,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,8388608,-17>>,y|-><<1,13148547,-25>>,g|-><<1,15435476,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,13107200,-18>>,y|-><<1,16189443,-24>>,g|-><<-1,8803839,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,11272192,-18>>,y|-><<1,9313256,-24>>,g|-><<-1,13954865,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,15728640,-19>>,y|-><<1,10351640,-26>>,g|-><<-1,16576420,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,10485760,-19>>,y|-><<1,13692962,-25>>,g|-><<1,15316680,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,8650752,-19>>,y|-><<-1,11784267,-24>>,g|-><<-1,11941776,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,16252928,-20>>,y|-><<-1,16415725,-24>>,g|-><<1,13855798,-26>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,10485760,-20>>,y|-><<-1,14077284,-24>>,g|-><<-1,9127160,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,8388608,-20>>,y|-><<-1,9764342,-26>>,g|-><<1,16598677,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,10485760,-21>>,y|-><<1,9518124,-25>>,g|-><<-1,16088080,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,12582912,-22>>,y|-><<-1,16609318,-24>>,g|-><<1,9470403,-26>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,8388608,-22>>,y|-><<-1,13963571,-25>>,g|-><<1,15255479,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,12582912,-23>>,y|-><<1,9494186,-27>>,g|-><<1,16735189,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,8388608,-23>>,y|-><<1,9064768,-24>>,g|-><<1,14117540,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,12582912,-24>>,y|-><<1,12275702,-24>>,g|-><<1,11436001,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,8388608,-24>>,y|-><<1,14723392,-24>>,g|-><<1,16086852,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,8388608,-25>>,y|-><<1,16255653,-24>>,g|-><<1,16602999,-26>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,13421773,-27>>,y|-><<1,16693400,-24>>,g|-><<1,13399415,-27>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,8589935,-33>>,y|-><<1,16777208,-24>>,g|-><<1,8589934,-33>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,8388608,-43>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-43>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<-1,8388608,-63>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-63>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<0,0,0>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,8388608,-63>>,y|-><<1,8388608,-23>>,g|-><<-1,8388608,-63>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,8388608,-43>>,y|-><<1,8388608,-23>>,g|-><<-1,8388608,-43>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,8589935,-33>>,y|-><<1,16777208,-24>>,g|-><<-1,8589934,-33>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,13421773,-27>>,y|-><<1,16693400,-24>>,g|-><<-1,13399415,-27>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,8388608,-25>>,y|-><<1,16255653,-24>>,g|-><<-1,16602999,-26>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,8388608,-24>>,y|-><<1,14723392,-24>>,g|-><<-1,16086852,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,12582912,-24>>,y|-><<1,12275702,-24>>,g|-><<-1,11436001,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,8388608,-23>>,y|-><<1,9064768,-24>>,g|-><<-1,14117540,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,12582912,-23>>,y|-><<1,9494186,-27>>,g|-><<-1,16735189,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,8388608,-22>>,y|-><<-1,13963571,-25>>,g|-><<-1,15255479,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,12582912,-22>>,y|-><<-1,16609318,-24>>,g|-><<-1,9470403,-26>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,10485760,-21>>,y|-><<1,9518124,-25>>,g|-><<1,16088080,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,8388608,-20>>,y|-><<-1,9764342,-26>>,g|-><<-1,16598677,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,10485760,-20>>,y|-><<-1,14077284,-24>>,g|-><<1,9127160,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,16252928,-20>>,y|-><<-1,16415725,-24>>,g|-><<-1,13855798,-26>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,8650752,-19>>,y|-><<-1,11784267,-24>>,g|-><<1,11941776,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,10485760,-19>>,y|-><<1,13692962,-25>>,g|-><<-1,15316680,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,15728640,-19>>,y|-><<1,10351640,-26>>,g|-><<1,16576420,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,11272192,-18>>,y|-><<1,9313256,-24>>,g|-><<1,13954865,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,13107200,-18>>,y|-><<1,16189443,-24>>,g|-><<1,8803839,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,8388608,-17>>,y|-><<1,13148547,-25>>,g|-><<-1,15435476,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,10485760,-17>>,y|-><<-1,14815925,-27>>,g|-><<1,16674685,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,11403264,-17>>,y|-><<1,9558824,-24>>,g|-><<1,13787815,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,11599872,-17>>,y|-><<1,14429441,-24>>,g|-><<-1,8559568,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,11730944,-17>>,y|-><<1,9498116,-28>>,g|-><<-1,16766710,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,12451840,-17>>,y|-><<1,12250280,-24>>,g|-><<-1,11463229,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,13107200,-17>>,y|-><<1,14467310,-24>>,g|-><<1,8495406,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,8388608,-16>>,y|-><<-1,11624863,-24>>,g|-><<-1,12097005,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,9830400,-16>>,y|-><<1,11731482,-24>>,g|-><<1,11993636,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,13107200,-16>>,y|-><<1,16347306,-25>>,g|-><<1,14651497,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,16384000,-15>>,y|-><<-1,14828530,-24>>,g|-><<1,15695817,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,11624448,-14>>,y|-><<1,14723877,-24>>,g|-><<1,16085076,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,11640832,-14>>,y|-><<1,14722907,-24>>,g|-><<-1,16088627,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,12206080,-14>>,y|-><<-1,15161006,-24>>,g|-><<1,14369254,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,13107200,-14>>,y|-><<-1,15036664,-25>>,g|-><<-1,14998322,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,16384000,-14>>,y|-><<1,9435155,-24>>,g|-><<-1,13872737,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,8388608,-11>>,y|-><<1,13488724,-24>>,g|-><<1,9976437,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,10240000,-10>>,y|-><<-1,15974516,-24>>,g|-><<1,10254717,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,8388608,-7>>,y|-><<-1,12110378,-24>>,g|-><<-1,11610932,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,16000000,-4>>,y|-><<1,15716093,-24>>,g|-><<1,11743833,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,15432099,3>>,y|-><<-1,9347628,-25>>,g|-><<1,16113052,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,9765625,10>>,y|-><<1,14648517,-24>>,g|-><<1,16357988,-25>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,14901161,26>>,y|-><<1,14140976,-27>>,g|-><<-1,16683839,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,11368684,43>>,y|-><<1,12654371,-24>>,g|-><<-1,11015529,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,13234890,76>>,y|-><<-1,10261026,-24>>,g|-><<1,13273520,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,14791142,104>>,y|-><<-1,16250236,-25>>,g|-><<-1,14678468,-24>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,8388608,-172>>,y|-><<1,8388608,-23>>,g|-><<-1,8388608,-172>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,8388608,-163>>,y|-><<1,8388608,-23>>,g|-><<-1,8388608,-163>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,8388608,-149>>,y|-><<1,8388608,-23>>,g|-><<-1,8388608,-149>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,10633824,-123>>,y|-><<1,8388608,-23>>,g|-><<-1,10633824,-123>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,12379400,-90>>,y|-><<1,8388608,-23>>,g|-><<-1,12379400,-90>>,w|->4,s|->0],
[f|->"cos",k|->0,x|-><<1,14411519,-57>>,y|-><<1,8388608,-23>>,g|-><<-1,14411519,-57>>,w|->4,s|->0],
[f|->"tan",k|->0,x|-><<-1,14791142,104>>,y|-><<1,15154477,-23>>,g|-><<1,8941499,-21>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,13234890,76>>,y|-><<-1,10851387,-23>>,g|-><<1,11212905,-22>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,11368684,43>>,y|-><<-1,14604432,-24>>,g|-><<1,14745129,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,14901161,26>>,y|-><<-1,9897067,-20>>,g|-><<1,11807853,-17>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,9765625,10>>,y|-><<1,9367552,-24>>,g|-><<1,11003793,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,15432099,3>>,y|-><<-1,14459932,-22>>,g|-><<1,13511290,-20>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,16000000,-4>>,y|-><<1,12536756,-25>>,g|-><<1,9559618,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,8388608,-7>>,y|-><<1,16085304,-24>>,g|-><<1,16099572,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,10240000,-10>>,y|-><<-1,10770004,-25>>,g|-><<1,9252823,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,8388608,-11>>,y|-><<1,12408649,-24>>,g|-><<1,12977408,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,16384000,-14>>,y|-><<-1,12333973,-23>>,g|-><<1,13261773,-22>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,13107200,-14>>,y|-><<1,16734435,-23>>,g|-><<1,10443034,-21>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,12206080,-14>>,y|-><<-1,15901061,-25>>,g|-><<1,10272441,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,11640832,-14>>,y|-><<-1,9166748,-24>>,g|-><<1,10892876,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,11624448,-14>>,y|-><<1,9164122,-24>>,g|-><<1,10891441,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,16384000,-15>>,y|-><<-1,8879239,-24>>,g|-><<1,10738249,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,13107200,-16>>,y|-><<1,15036810,-23>>,g|-><<1,8835626,-21>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,9830400,-16>>,y|-><<1,8576062,-23>>,g|-><<1,8578156,-22>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,8388608,-16>>,y|-><<1,8729310,-23>>,g|-><<1,8736229,-22>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,13107200,-17>>,y|-><<1,9851815,-24>>,g|-><<1,11281169,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,12451840,-17>>,y|-><<-1,15699321,-24>>,g|-><<1,15733947,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,11730944,-17>>,y|-><<-1,14808132,-19>>,g|-><<1,13086537,-14>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,11599872,-17>>,y|-><<-1,9952272,-24>>,g|-><<1,11340460,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,11403264,-17>>,y|-><<1,12099875,-23>>,g|-><<1,12920839,-22>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,10485760,-17>>,y|-><<-1,9441016,-20>>,g|-><<1,10756529,-17>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,8388608,-17>>,y|-><<-1,9847640,-22>>,g|-><<1,13657593,-21>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,13107200,-18>>,y|-><<1,9123471,-25>>,g|-><<1,9008777,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,11272192,-18>>,y|-><<1,12569384,-23>>,g|-><<1,13611207,-22>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,15728640,-19>>,y|-><<1,13432953,-21>>,g|-><<1,11017458,-18>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,10485760,-19>>,y|-><<-1,9383333,-22>>,g|-><<1,12593165,-21>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,8650752,-19>>,y|-><<-1,8500731,-23>>,g|-><<1,8501480,-22>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,16252928,-20>>,y|-><<1,14160917,-26>>,g|-><<1,8762127,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,10485760,-20>>,y|-><<-1,10877690,-24>>,g|-><<1,11914942,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,8388608,-20>>,y|-><<1,14260028,-21>>,g|-><<1,12382654,-18>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,10485760,-21>>,y|-><<1,14178908,-22>>,g|-><<1,13031578,-20>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,12582912,-22>>,y|-><<1,9566137,-26>>,g|-><<1,8559060,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,8388608,-22>>,y|-><<1,9164721,-22>>,g|-><<1,12109793,-21>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,12582912,-23>>,y|-><<-1,14786411,-20>>,g|-><<1,13097373,-16>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,8388608,-23>>,y|-><<-1,13064483,-23>>,g|-><<1,14367667,-22>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,12582912,-24>>,y|-><<-1,15629595,-24>>,g|-><<1,15668846,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,8388608,-24>>,y|-><<-1,9165435,-24>>,g|-><<1,10892158,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,8388608,-25>>,y|-><<-1,8567853,-25>>,g|-><<1,8935541,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,13421773,-27>>,y|-><<-1,13466692,-27>>,g|-><<1,8473057,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,8589935,-33>>,y|-><<-1,8589938,-33>>,g|-><<1,8388616,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,8388608,-43>>,y|-><<-1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<-1,8388608,-63>>,y|-><<-1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<0,0,0>>,y|-><<0,0,0>>,g|-><<1,8388608,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,8388608,-63>>,y|-><<1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,8388608,-43>>,y|-><<1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,8589935,-33>>,y|-><<1,8589938,-33>>,g|-><<1,8388616,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,13421773,-27>>,y|-><<1,13466692,-27>>,g|-><<1,8473057,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,8388608,-25>>,y|-><<1,8567853,-25>>,g|-><<1,8935541,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,8388608,-24>>,y|-><<1,9165435,-24>>,g|-><<1,10892158,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,12582912,-24>>,y|-><<1,15629595,-24>>,g|-><<1,15668846,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,8388608,-23>>,y|-><<1,13064483,-23>>,g|-><<1,14367667,-22>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,12582912,-23>>,y|-><<1,14786411,-20>>,g|-><<1,13097373,-16>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,8388608,-22>>,y|-><<-1,9164721,-22>>,g|-><<1,12109793,-21>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,12582912,-22>>,y|-><<-1,9566137,-26>>,g|-><<1,8559060,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,10485760,-21>>,y|-><<-1,14178908,-22>>,g|-><<1,13031578,-20>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,8388608,-20>>,y|-><<-1,14260028,-21>>,g|-><<1,12382654,-18>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,10485760,-20>>,y|-><<1,10877690,-24>>,g|-><<1,11914942,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,16252928,-20>>,y|-><<-1,14160917,-26>>,g|-><<1,8762127,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,8650752,-19>>,y|-><<1,8500731,-23>>,g|-><<1,8501480,-22>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,10485760,-19>>,y|-><<1,9383333,-22>>,g|-><<1,12593165,-21>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,15728640,-19>>,y|-><<-1,13432953,-21>>,g|-><<1,11017458,-18>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,11272192,-18>>,y|-><<-1,12569384,-23>>,g|-><<1,13611207,-22>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,13107200,-18>>,y|-><<-1,9123471,-25>>,g|-><<1,9008777,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,8388608,-17>>,y|-><<1,9847640,-22>>,g|-><<1,13657593,-21>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,10485760,-17>>,y|-><<1,9441016,-20>>,g|-><<1,10756529,-17>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,11403264,-17>>,y|-><<-1,12099875,-23>>,g|-><<1,12920839,-22>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,11599872,-17>>,y|-><<1,9952272,-24>>,g|-><<1,11340460,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,11730944,-17>>,y|-><<1,14808132,-19>>,g|-><<1,13086537,-14>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,12451840,-17>>,y|-><<1,15699321,-24>>,g|-><<1,15733947,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,13107200,-17>>,y|-><<-1,9851815,-24>>,g|-><<1,11281169,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,8388608,-16>>,y|-><<-1,8729310,-23>>,g|-><<1,8736229,-22>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,9830400,-16>>,y|-><<-1,8576062,-23>>,g|-><<1,8578156,-22>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,13107200,-16>>,y|-><<-1,15036810,-23>>,g|-><<1,8835626,-21>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,16384000,-15>>,y|-><<1,8879239,-24>>,g|-><<1,10738249,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,11624448,-14>>,y|-><<-1,9164122,-24>>,g|-><<1,10891441,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,11640832,-14>>,y|-><<1,9166748,-24>>,g|-><<1,10892876,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,12206080,-14>>,y|-><<1,15901061,-25>>,g|-><<1,10272441,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,13107200,-14>>,y|-><<-1,16734435,-23>>,g|-><<1,10443034,-21>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,16384000,-14>>,y|-><<1,12333973,-23>>,g|-><<1,13261773,-22>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,8388608,-11>>,y|-><<-1,12408649,-24>>,g|-><<1,12977408,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,10240000,-10>>,y|-><<1,10770004,-25>>,g|-><<1,9252823,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,8388608,-7>>,y|-><<-1,16085304,-24>>,g|-><<1,16099572,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,16000000,-4>>,y|-><<-1,12536756,-25>>,g|-><<1,9559618,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,15432099,3>>,y|-><<1,14459932,-22>>,g|-><<1,13511290,-20>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,9765625,10>>,y|-><<-1,9367552,-24>>,g|-><<1,11003793,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,14901161,26>>,y|-><<1,9897067,-20>>,g|-><<1,11807853,-17>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,11368684,43>>,y|-><<1,14604432,-24>>,g|-><<1,14745129,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,13234890,76>>,y|-><<1,10851387,-23>>,g|-><<1,11212905,-22>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,14791142,104>>,y|-><<-1,15154477,-23>>,g|-><<1,8941499,-21>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,8388608,-172>>,y|-><<1,8388608,-172>>,g|-><<1,8388608,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,8388608,-163>>,y|-><<1,8388608,-163>>,g|-><<1,8388608,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,8388608,-149>>,y|-><<1,8388608,-149>>,g|-><<1,8388608,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,10633824,-123>>,y|-><<1,10633824,-123>>,g|-><<1,8388608,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,12379400,-90>>,y|-><<1,12379400,-90>>,g|-><<1,8388608,-23>>,w|->10,s|->0],
[f|->"tan",k|->0,x|-><<1,14411519,-57>>,y|-><<1,14411519,-57>>,g|-><<1,8388608,-23>>,w|->10,s|->0],
[f|->"tanh",k|->0,x|-><<-1,14791142,104>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,13234890,76>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,11368684,43>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,14901161,26>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,9765625,10>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,15432099,3>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,16000000,-4>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,8388608,-7>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,10240000,-10>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,8388608,-11>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,16384000,-14>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,13107200,-14>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,12206080,-14>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,11640832,-14>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,11624448,-14>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,16384000,-15>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,13107200,-16>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,9830400,-16>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,8388608,-16>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,13107200,-17>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,12451840,-17>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,11730944,-17>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,11599872,-17>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,11403264,-17>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,10485760,-17>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,8388608,-17>>,y|-><<-1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,13107200,-18>>,y|-><<-1,8388608,-23>>,g|-><<1,13918457,-166>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,11272192,-18>>,y|-><<-1,8388608,-23>>,g|-><<1,15962978,-146>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,15728640,-19>>,y|-><<-1,8388608,-23>>,g|-><<1,11366601,-108>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,10485760,-19>>,y|-><<-1,8388608,-23>>,g|-><<1,10271890,-79>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,8650752,-19>>,y|-><<-1,8388608,-23>>,g|-><<1,11000484,-69>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,16252928,-20>>,y|-><<-1,8388608,-23>>,g|-><<1,10160399,-66>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,10485760,-20>>,y|-><<-1,8388608,-23>>,g|-><<1,9282611,-50>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,8388608,-20>>,y|-><<-1,16777212,-24>>,g|-><<1,15837914,-45>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,10485760,-21>>,y|-><<-1,16775693,-24>>,g|-><<1,12478305,-36>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,12582912,-22>>,y|-><<-1,16694249,-24>>,g|-><<1,10593577,-30>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,8388608,-22>>,y|-><<-1,16173699,-24>>,g|-><<1,9482593,-27>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,12582912,-23>>,y|-><<-1,15185868,-24>>,g|-><<1,12127017,-26>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,8388608,-23>>,y|-><<-1,12777430,-24>>,g|-><<1,14092000,-25>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,12582912,-24>>,y|-><<-1,10656031,-24>>,g|-><<1,10009049,-24>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,8388608,-24>>,y|-><<-1,15506079,-25>>,g|-><<1,13194403,-24>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,8388608,-25>>,y|-><<-1,16436213,-26>>,g|-><<1,15770832,-24>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,13421773,-27>>,y|-><<-1,13377212,-27>>,g|-><<1,16610556,-24>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,8589935,-33>>,y|-><<-1,8589932,-33>>,g|-><<1,16777199,-24>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,8388608,-43>>,y|-><<-1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<-1,8388608,-63>>,y|-><<-1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<0,0,0>>,y|-><<0,0,0>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,8388608,-63>>,y|-><<1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,8388608,-43>>,y|-><<1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,8589935,-33>>,y|-><<1,8589932,-33>>,g|-><<1,16777199,-24>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,13421773,-27>>,y|-><<1,13377212,-27>>,g|-><<1,16610556,-24>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,8388608,-25>>,y|-><<1,16436213,-26>>,g|-><<1,15770832,-24>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,8388608,-24>>,y|-><<1,15506079,-25>>,g|-><<1,13194403,-24>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,12582912,-24>>,y|-><<1,10656031,-24>>,g|-><<1,10009049,-24>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,8388608,-23>>,y|-><<1,12777430,-24>>,g|-><<1,14092000,-25>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,12582912,-23>>,y|-><<1,15185868,-24>>,g|-><<1,12127017,-26>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,8388608,-22>>,y|-><<1,16173699,-24>>,g|-><<1,9482593,-27>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,12582912,-22>>,y|-><<1,16694249,-24>>,g|-><<1,10593577,-30>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,10485760,-21>>,y|-><<1,16775693,-24>>,g|-><<1,12478305,-36>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,8388608,-20>>,y|-><<1,16777212,-24>>,g|-><<1,15837914,-45>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,10485760,-20>>,y|-><<1,8388608,-23>>,g|-><<1,9282611,-50>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,16252928,-20>>,y|-><<1,8388608,-23>>,g|-><<1,10160399,-66>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,8650752,-19>>,y|-><<1,8388608,-23>>,g|-><<1,11000484,-69>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,10485760,-19>>,y|-><<1,8388608,-23>>,g|-><<1,10271890,-79>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,15728640,-19>>,y|-><<1,8388608,-23>>,g|-><<1,11366601,-108>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,11272192,-18>>,y|-><<1,8388608,-23>>,g|-><<1,15962978,-146>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,13107200,-18>>,y|-><<1,8388608,-23>>,g|-><<1,13918457,-166>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,8388608,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,10485760,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,11403264,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,11599872,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,11730944,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,12451840,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,13107200,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,8388608,-16>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,9830400,-16>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,13107200,-16>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,16384000,-15>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,11624448,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,11640832,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,12206080,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,13107200,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,16384000,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,8388608,-11>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,10240000,-10>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,8388608,-7>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,16000000,-4>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,15432099,3>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,9765625,10>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,14901161,26>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,11368684,43>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,13234890,76>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,14791142,104>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,8388608,-172>>,y|-><<1,8388608,-172>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,8388608,-163>>,y|-><<1,8388608,-163>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,8388608,-149>>,y|-><<1,8388608,-149>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,10633824,-123>>,y|-><<1,10633824,-123>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,12379400,-90>>,y|-><<1,12379400,-90>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"tanh",k|->0,x|-><<1,14411519,-57>>,y|-><<1,14411519,-57>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,14791142,104>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,13234890,76>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,11368684,43>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,14901161,26>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,9765625,10>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,15432099,3>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,16000000,-4>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,8388608,-7>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,10240000,-10>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,8388608,-11>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,16384000,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,13107200,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,12206080,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,11640832,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,11624448,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,16384000,-15>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,13107200,-16>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,9830400,-16>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,8388608,-16>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,13107200,-17>>,y|-><<1,13918457,-168>>,g|-><<1,13918457,-168>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,12451840,-17>>,y|-><<1,16138142,-161>>,g|-><<1,16138142,-161>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,11730944,-17>>,y|-><<1,15425285,-153>>,g|-><<1,15425285,-153>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,11599872,-17>>,y|-><<1,10482568,-151>>,g|-><<1,10482568,-151>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,11403264,-17>>,y|-><<1,11744903,-149>>,g|-><<1,11744903,-149>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,10485760,-17>>,y|-><<1,12577978,-139>>,g|-><<1,12577978,-139>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,8388608,-17>>,y|-><<1,13323940,-116>>,g|-><<1,13323940,-116>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,13107200,-18>>,y|-><<1,15281131,-96>>,g|-><<1,15281131,-96>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,11272192,-18>>,y|-><<1,16365034,-86>>,g|-><<1,16365034,-86>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,15728640,-19>>,y|-><<1,13809414,-67>>,g|-><<1,13809414,-67>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,10485760,-19>>,y|-><<1,9282611,-52>>,g|-><<1,9282611,-52>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,8650752,-19>>,y|-><<1,9606182,-47>>,g|-><<1,9606181,-47>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,16252928,-20>>,y|-><<1,13056154,-46>>,g|-><<1,13056151,-46>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,10485760,-20>>,y|-><<1,12478871,-38>>,g|-><<1,12478305,-38>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,8388608,-20>>,y|-><<1,11522543,-35>>,g|-><<1,11518679,-35>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,10485760,-21>>,y|-><<1,14372788,-31>>,g|-><<1,14276593,-31>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,12582912,-22>>,y|-><<1,12730786,-28>>,g|-><<1,12127017,-28>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,8388608,-22>>,y|-><<1,15999145,-27>>,g|-><<1,14092000,-27>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,12582912,-23>>,y|-><<1,12242370,-26>>,g|-><<1,10009049,-26>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,8388608,-23>>,y|-><<1,9024177,-25>>,g|-><<1,13194403,-26>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,12582912,-24>>,y|-><<1,10764977,-25>>,g|-><<1,14622686,-26>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,8388608,-24>>,y|-><<1,12668163,-25>>,g|-><<1,15770832,-26>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,8388608,-25>>,y|-><<1,14690919,-25>>,g|-><<1,16517779,-26>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,13421773,-27>>,y|-><<1,15939054,-25>>,g|-><<1,16735343,-26>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,8589935,-33>>,y|-><<1,16768827,-25>>,g|-><<1,16777212,-26>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,8388608,-43>>,y|-><<1,16777208,-25>>,g|-><<1,8388608,-25>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<-1,8388608,-63>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-25>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<0,0,0>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-25>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,8388608,-63>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-25>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,8388608,-43>>,y|-><<1,8388612,-24>>,g|-><<1,8388608,-25>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,8589935,-33>>,y|-><<1,8392802,-24>>,g|-><<1,16777212,-26>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,13421773,-27>>,y|-><<1,8807689,-24>>,g|-><<1,16735343,-26>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,8388608,-25>>,y|-><<1,9431757,-24>>,g|-><<1,16517779,-26>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,8388608,-24>>,y|-><<1,10443135,-24>>,g|-><<1,15770832,-26>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,12582912,-24>>,y|-><<1,11394728,-24>>,g|-><<1,14622686,-26>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,8388608,-23>>,y|-><<1,12265128,-24>>,g|-><<1,13194403,-26>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,12582912,-23>>,y|-><<1,13716624,-24>>,g|-><<1,10009049,-26>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,8388608,-22>>,y|-><<1,14777323,-24>>,g|-><<1,14092000,-27>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,12582912,-22>>,y|-><<1,15981542,-24>>,g|-><<1,12127017,-28>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,10485760,-21>>,y|-><<1,16664929,-24>>,g|-><<1,14276593,-31>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,8388608,-20>>,y|-><<1,16771590,-24>>,g|-><<1,11518679,-35>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,10485760,-20>>,y|-><<1,16776454,-24>>,g|-><<1,12478305,-38>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,16252928,-20>>,y|-><<1,16777213,-24>>,g|-><<1,13056151,-46>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,8650752,-19>>,y|-><<1,16777215,-24>>,g|-><<1,9606181,-47>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,10485760,-19>>,y|-><<1,8388608,-23>>,g|-><<1,9282611,-52>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,15728640,-19>>,y|-><<1,8388608,-23>>,g|-><<1,13809414,-67>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,11272192,-18>>,y|-><<1,8388608,-23>>,g|-><<1,16365034,-86>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,13107200,-18>>,y|-><<1,8388608,-23>>,g|-><<1,15281131,-96>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,8388608,-17>>,y|-><<1,8388608,-23>>,g|-><<1,13323940,-116>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,10485760,-17>>,y|-><<1,8388608,-23>>,g|-><<1,12577978,-139>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,11403264,-17>>,y|-><<1,8388608,-23>>,g|-><<1,11744903,-149>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,11599872,-17>>,y|-><<1,8388608,-23>>,g|-><<1,10482568,-151>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,11730944,-17>>,y|-><<1,8388608,-23>>,g|-><<1,15425285,-153>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,12451840,-17>>,y|-><<1,8388608,-23>>,g|-><<1,16138142,-161>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,13107200,-17>>,y|-><<1,8388608,-23>>,g|-><<1,13918457,-168>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,8388608,-16>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,9830400,-16>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,13107200,-16>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,16384000,-15>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,11624448,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,11640832,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,12206080,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,13107200,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,16384000,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,8388608,-11>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,10240000,-10>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,8388608,-7>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,16000000,-4>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,15432099,3>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,9765625,10>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,14901161,26>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,11368684,43>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,13234890,76>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,14791142,104>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,8388608,-172>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-25>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,8388608,-163>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-25>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,8388608,-149>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-25>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,10633824,-123>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-25>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,12379400,-90>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-25>>,w|->8,s|->1],
[f|->"sigmoid",k|->0,x|-><<1,14411519,-57>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-25>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,14791142,104>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,13234890,76>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,11368684,43>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,14901161,26>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,9765625,10>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,15432099,3>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,16000000,-4>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,8388608,-7>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,10240000,-10>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,8388608,-11>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,16384000,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,13107200,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,12206080,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,11640832,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,11624448,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,16384000,-15>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,13107200,-16>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,9830400,-16>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,8388608,-16>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,13107200,-17>>,y|-><<1,13918457,-168>>,g|-><<1,13918457,-168>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,12451840,-17>>,y|-><<1,16138142,-161>>,g|-><<1,16138142,-161>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,11730944,-17>>,y|-><<1,15425285,-153>>,g|-><<1,15425285,-153>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,11599872,-17>>,y|-><<1,10482568,-151>>,g|-><<1,10482568,-151>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,11403264,-17>>,y|-><<1,11744903,-149>>,g|-><<1,11744903,-149>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,10485760,-17>>,y|-><<1,12577978,-139>>,g|-><<1,12577978,-139>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,8388608,-17>>,y|-><<1,13323940,-116>>,g|-><<1,13323940,-116>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,13107200,-18>>,y|-><<1,15281131,-96>>,g|-><<1,15281131,-96>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,11272192,-18>>,y|-><<1,16365034,-86>>,g|-><<1,16365034,-86>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,15728640,-19>>,y|-><<1,13809414,-67>>,g|-><<1,13809414,-67>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,10485760,-19>>,y|-><<1,9282611,-52>>,g|-><<1,9282611,-52>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,8650752,-19>>,y|-><<1,9606182,-47>>,g|-><<1,9606182,-47>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,16252928,-20>>,y|-><<1,13056155,-46>>,g|-><<1,13056154,-46>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,10485760,-20>>,y|-><<1,12479154,-38>>,g|-><<1,12478871,-38>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,8388608,-20>>,y|-><<1,11524475,-35>>,g|-><<1,11522543,-35>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,10485760,-21>>,y|-><<1,14421101,-31>>,g|-><<1,14372788,-31>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,12582912,-22>>,y|-><<1,13042568,-28>>,g|-><<1,12730786,-28>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,8388608,-22>>,y|-><<1,8517995,-26>>,g|-><<1,15999145,-27>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,12582912,-23>>,y|-><<1,13516616,-26>>,g|-><<1,12242370,-26>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,8388608,-23>>,y|-><<1,10511318,-25>>,g|-><<1,9024177,-25>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,12582912,-24>>,y|-><<1,12981237,-25>>,g|-><<1,10764977,-25>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,8388608,-24>>,y|-><<1,15907384,-25>>,g|-><<1,12668163,-25>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,8388608,-25>>,y|-><<1,9662660,-24>>,g|-><<1,14690919,-25>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,13421773,-27>>,y|-><<1,10811182,-24>>,g|-><<1,15939054,-25>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,8589935,-33>>,y|-><<1,11620693,-24>>,g|-><<1,16768827,-25>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,8388608,-43>>,y|-><<1,11629072,-24>>,g|-><<1,16777208,-25>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<-1,8388608,-63>>,y|-><<1,11629080,-24>>,g|-><<1,8388608,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<0,0,0>>,y|-><<1,11629080,-24>>,g|-><<1,8388608,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,8388608,-63>>,y|-><<1,11629080,-24>>,g|-><<1,8388608,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,8388608,-43>>,y|-><<1,11629088,-24>>,g|-><<1,8388612,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,8589935,-33>>,y|-><<1,11637471,-24>>,g|-><<1,8392802,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,13421773,-27>>,y|-><<1,12488904,-24>>,g|-><<1,8807689,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,8388608,-25>>,y|-><<1,13856964,-24>>,g|-><<1,9431757,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,8388608,-24>>,y|-><<1,16342300,-24>>,g|-><<1,10443135,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,12582912,-24>>,y|-><<1,9536765,-23>>,g|-><<1,11394728,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,8388608,-23>>,y|-><<1,11016437,-23>>,g|-><<1,12265128,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,12582912,-23>>,y|-><<1,14272489,-23>>,g|-><<1,13716624,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,8388608,-22>>,y|-><<1,8920983,-22>>,g|-><<1,14777323,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,12582912,-22>>,y|-><<1,12786702,-22>>,g|-><<1,15981542,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,10485760,-21>>,y|-><<1,10499843,-21>>,g|-><<1,16664929,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,8388608,-20>>,y|-><<1,8388960,-20>>,g|-><<1,16771590,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,10485760,-20>>,y|-><<1,10485808,-20>>,g|-><<1,16776454,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,16252928,-20>>,y|-><<1,16252928,-20>>,g|-><<1,16777213,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,8650752,-19>>,y|-><<1,8650752,-19>>,g|-><<1,16777215,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,10485760,-19>>,y|-><<1,10485760,-19>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,15728640,-19>>,y|-><<1,15728640,-19>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,11272192,-18>>,y|-><<1,11272192,-18>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,13107200,-18>>,y|-><<1,13107200,-18>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,8388608,-17>>,y|-><<1,8388608,-17>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,10485760,-17>>,y|-><<1,10485760,-17>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,11403264,-17>>,y|-><<1,11403264,-17>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,11599872,-17>>,y|-><<1,11599872,-17>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,11730944,-17>>,y|-><<1,11730944,-17>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,12451840,-17>>,y|-><<1,12451840,-17>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,13107200,-17>>,y|-><<1,13107200,-17>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,8388608,-16>>,y|-><<1,8388608,-16>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,9830400,-16>>,y|-><<1,9830400,-16>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,13107200,-16>>,y|-><<1,13107200,-16>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,16384000,-15>>,y|-><<1,16384000,-15>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,11624448,-14>>,y|-><<1,11624448,-14>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,11640832,-14>>,y|-><<1,11640832,-14>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,12206080,-14>>,y|-><<1,12206080,-14>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,13107200,-14>>,y|-><<1,13107200,-14>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,16384000,-14>>,y|-><<1,16384000,-14>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,8388608,-11>>,y|-><<1,8388608,-11>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,10240000,-10>>,y|-><<1,10240000,-10>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,8388608,-7>>,y|-><<1,8388608,-7>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,16000000,-4>>,y|-><<1,16000000,-4>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,15432099,3>>,y|-><<1,15432099,3>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,9765625,10>>,y|-><<1,9765625,10>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,14901161,26>>,y|-><<1,14901161,26>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,11368684,43>>,y|-><<1,11368684,43>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,13234890,76>>,y|-><<1,13234890,76>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,14791142,104>>,y|-><<1,14791142,104>>,g|-><<1,8388608,-23>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,8388608,-172>>,y|-><<1,11629080,-24>>,g|-><<1,8388608,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,8388608,-163>>,y|-><<1,11629080,-24>>,g|-><<1,8388608,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,8388608,-149>>,y|-><<1,11629080,-24>>,g|-><<1,8388608,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,10633824,-123>>,y|-><<1,11629080,-24>>,g|-><<1,8388608,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,12379400,-90>>,y|-><<1,11629080,-24>>,g|-><<1,8388608,-24>>,w|->8,s|->1],
[f|->"softplus",k|->0,x|-><<1,14411519,-57>>,y|-><<1,11629080,-24>>,g|-><<1,8388608,-24>>,w|->8,s|->1],
[f|->"abs",k|->0,x|-><<-1,14791142,104>>,y|-><<1,14791142,104>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,13234890,76>>,y|-><<1,13234890,76>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,11368684,43>>,y|-><<1,11368684,43>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,14901161,26>>,y|-><<1,14901161,26>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,9765625,10>>,y|-><<1,9765625,10>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,15432099,3>>,y|-><<1,15432099,3>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,16000000,-4>>,y|-><<1,16000000,-4>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,8388608,-7>>,y|-><<1,8388608,-7>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,10240000,-10>>,y|-><<1,10240000,-10>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,8388608,-11>>,y|-><<1,8388608,-11>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,16384000,-14>>,y|-><<1,16384000,-14>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,13107200,-14>>,y|-><<1,13107200,-14>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,12206080,-14>>,y|-><<1,12206080,-14>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,11640832,-14>>,y|-><<1,11640832,-14>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,11624448,-14>>,y|-><<1,11624448,-14>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,16384000,-15>>,y|-><<1,16384000,-15>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,13107200,-16>>,y|-><<1,13107200,-16>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,9830400,-16>>,y|-><<1,9830400,-16>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,8388608,-16>>,y|-><<1,8388608,-16>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,13107200,-17>>,y|-><<1,13107200,-17>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,12451840,-17>>,y|-><<1,12451840,-17>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,11730944,-17>>,y|-><<1,11730944,-17>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,11599872,-17>>,y|-><<1,11599872,-17>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,11403264,-17>>,y|-><<1,11403264,-17>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,10485760,-17>>,y|-><<1,10485760,-17>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,8388608,-17>>,y|-><<1,8388608,-17>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,13107200,-18>>,y|-><<1,13107200,-18>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,11272192,-18>>,y|-><<1,11272192,-18>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,15728640,-19>>,y|-><<1,15728640,-19>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,10485760,-19>>,y|-><<1,10485760,-19>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,8650752,-19>>,y|-><<1,8650752,-19>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,16252928,-20>>,y|-><<1,16252928,-20>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,10485760,-20>>,y|-><<1,10485760,-20>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,8388608,-20>>,y|-><<1,8388608,-20>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,10485760,-21>>,y|-><<1,10485760,-21>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,12582912,-22>>,y|-><<1,12582912,-22>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,8388608,-22>>,y|-><<1,8388608,-22>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,12582912,-23>>,y|-><<1,12582912,-23>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,12582912,-24>>,y|-><<1,12582912,-24>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,8388608,-24>>,y|-><<1,8388608,-24>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,8388608,-25>>,y|-><<1,8388608,-25>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,13421773,-27>>,y|-><<1,13421773,-27>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,8589935,-33>>,y|-><<1,8589935,-33>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,8388608,-43>>,y|-><<1,8388608,-43>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<-1,8388608,-63>>,y|-><<1,8388608,-63>>,g|-><<-1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<0,0,0>>,y|-><<0,0,0>>,g|-><<0,-2,0>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,8388608,-63>>,y|-><<1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,8388608,-43>>,y|-><<1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,8589935,-33>>,y|-><<1,8589935,-33>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,13421773,-27>>,y|-><<1,13421773,-27>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,8388608,-25>>,y|-><<1,8388608,-25>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,8388608,-24>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,12582912,-24>>,y|-><<1,12582912,-24>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,12582912,-23>>,y|-><<1,12582912,-23>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,8388608,-22>>,y|-><<1,8388608,-22>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,12582912,-22>>,y|-><<1,12582912,-22>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,10485760,-21>>,y|-><<1,10485760,-21>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,8388608,-20>>,y|-><<1,8388608,-20>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,10485760,-20>>,y|-><<1,10485760,-20>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,16252928,-20>>,y|-><<1,16252928,-20>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,8650752,-19>>,y|-><<1,8650752,-19>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,10485760,-19>>,y|-><<1,10485760,-19>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,15728640,-19>>,y|-><<1,15728640,-19>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,11272192,-18>>,y|-><<1,11272192,-18>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,13107200,-18>>,y|-><<1,13107200,-18>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,8388608,-17>>,y|-><<1,8388608,-17>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,10485760,-17>>,y|-><<1,10485760,-17>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,11403264,-17>>,y|-><<1,11403264,-17>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,11599872,-17>>,y|-><<1,11599872,-17>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,11730944,-17>>,y|-><<1,11730944,-17>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,12451840,-17>>,y|-><<1,12451840,-17>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,13107200,-17>>,y|-><<1,13107200,-17>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,8388608,-16>>,y|-><<1,8388608,-16>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,9830400,-16>>,y|-><<1,9830400,-16>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,13107200,-16>>,y|-><<1,13107200,-16>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,16384000,-15>>,y|-><<1,16384000,-15>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,11624448,-14>>,y|-><<1,11624448,-14>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,11640832,-14>>,y|-><<1,11640832,-14>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,12206080,-14>>,y|-><<1,12206080,-14>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,13107200,-14>>,y|-><<1,13107200,-14>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,16384000,-14>>,y|-><<1,16384000,-14>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,8388608,-11>>,y|-><<1,8388608,-11>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,10240000,-10>>,y|-><<1,10240000,-10>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,8388608,-7>>,y|-><<1,8388608,-7>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,16000000,-4>>,y|-><<1,16000000,-4>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,15432099,3>>,y|-><<1,15432099,3>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,9765625,10>>,y|-><<1,9765625,10>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,14901161,26>>,y|-><<1,14901161,26>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,11368684,43>>,y|-><<1,11368684,43>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,13234890,76>>,y|-><<1,13234890,76>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,14791142,104>>,y|-><<1,14791142,104>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,8388608,-172>>,y|-><<1,8388608,-172>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,8388608,-163>>,y|-><<1,8388608,-163>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,8388608,-149>>,y|-><<1,8388608,-149>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,10633824,-123>>,y|-><<1,10633824,-123>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,12379400,-90>>,y|-><<1,12379400,-90>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"abs",k|->0,x|-><<1,14411519,-57>>,y|-><<1,14411519,-57>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,14791142,104>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,13234890,76>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,11368684,43>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,14901161,26>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,9765625,10>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,15432099,3>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,16000000,-4>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,8388608,-7>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,10240000,-10>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,8388608,-11>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,16384000,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,13107200,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,12206080,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,11640832,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,11624448,-14>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,16384000,-15>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,13107200,-16>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,9830400,-16>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,8388608,-16>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,13107200,-17>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,12451840,-17>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,11730944,-17>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,11599872,-17>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,11403264,-17>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,10485760,-17>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,8388608,-17>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,13107200,-18>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,11272192,-18>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,15728640,-19>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,10485760,-19>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,8650752,-19>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,16252928,-20>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,10485760,-20>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,8388608,-20>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,10485760,-21>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,12582912,-22>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,8388608,-22>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,12582912,-23>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,8388608,-23>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,12582912,-24>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,8388608,-24>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,8388608,-25>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,13421773,-27>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,8589935,-33>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,8388608,-43>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<-1,8388608,-63>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<0,0,0>>,y|-><<0,0,0>>,g|-><<0,-2,0>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,8388608,-63>>,y|-><<1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,8388608,-43>>,y|-><<1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,8589935,-33>>,y|-><<1,8589935,-33>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,13421773,-27>>,y|-><<1,13421773,-27>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,8388608,-25>>,y|-><<1,8388608,-25>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,8388608,-24>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,12582912,-24>>,y|-><<1,12582912,-24>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,12582912,-23>>,y|-><<1,12582912,-23>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,8388608,-22>>,y|-><<1,8388608,-22>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,12582912,-22>>,y|-><<1,12582912,-22>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,10485760,-21>>,y|-><<1,10485760,-21>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,8388608,-20>>,y|-><<1,8388608,-20>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,10485760,-20>>,y|-><<1,10485760,-20>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,16252928,-20>>,y|-><<1,16252928,-20>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,8650752,-19>>,y|-><<1,8650752,-19>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,10485760,-19>>,y|-><<1,10485760,-19>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,15728640,-19>>,y|-><<1,15728640,-19>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,11272192,-18>>,y|-><<1,11272192,-18>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,13107200,-18>>,y|-><<1,13107200,-18>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,8388608,-17>>,y|-><<1,8388608,-17>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,10485760,-17>>,y|-><<1,10485760,-17>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,11403264,-17>>,y|-><<1,11403264,-17>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,11599872,-17>>,y|-><<1,11599872,-17>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,11730944,-17>>,y|-><<1,11730944,-17>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,12451840,-17>>,y|-><<1,12451840,-17>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,13107200,-17>>,y|-><<1,13107200,-17>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,8388608,-16>>,y|-><<1,8388608,-16>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,9830400,-16>>,y|-><<1,9830400,-16>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,13107200,-16>>,y|-><<1,13107200,-16>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,16384000,-15>>,y|-><<1,16384000,-15>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,11624448,-14>>,y|-><<1,11624448,-14>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,11640832,-14>>,y|-><<1,11640832,-14>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,12206080,-14>>,y|-><<1,12206080,-14>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,13107200,-14>>,y|-><<1,13107200,-14>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,16384000,-14>>,y|-><<1,16384000,-14>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,8388608,-11>>,y|-><<1,8388608,-11>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,10240000,-10>>,y|-><<1,10240000,-10>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,8388608,-7>>,y|-><<1,8388608,-7>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,16000000,-4>>,y|-><<1,16000000,-4>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,15432099,3>>,y|-><<1,15432099,3>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,9765625,10>>,y|-><<1,9765625,10>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,14901161,26>>,y|-><<1,14901161,26>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,11368684,43>>,y|-><<1,11368684,43>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,13234890,76>>,y|-><<1,13234890,76>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,14791142,104>>,y|-><<1,14791142,104>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,8388608,-172>>,y|-><<1,8388608,-172>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,8388608,-163>>,y|-><<1,8388608,-163>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,8388608,-149>>,y|-><<1,8388608,-149>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,10633824,-123>>,y|-><<1,10633824,-123>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,12379400,-90>>,y|-><<1,12379400,-90>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"relu",k|->0,x|-><<1,14411519,-57>>,y|-><<1,14411519,-57>>,g|-><<1,8388608,-23>>,w|->0,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,14791142,104>>,y|-><<-1,9466331,98>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,13234890,76>>,y|-><<-1,8470330,70>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,11368684,43>>,y|-><<-1,14551916,36>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,14901161,26>>,y|-><<-1,9536743,20>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,9765625,10>>,y|-><<-1,12500000,3>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,15432099,3>>,y|-><<-1,9876543,-3>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,16000000,-4>>,y|-><<-1,10240000,-10>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,8388608,-7>>,y|-><<-1,10737418,-14>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,10240000,-10>>,y|-><<-1,13107200,-17>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,8388608,-11>>,y|-><<-1,10737418,-18>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,16384000,-14>>,y|-><<-1,10485760,-20>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,13107200,-14>>,y|-><<-1,8388608,-20>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,12206080,-14>>,y|-><<-1,15623782,-21>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,11640832,-14>>,y|-><<-1,14900265,-21>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,11624448,-14>>,y|-><<-1,14879293,-21>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,16384000,-15>>,y|-><<-1,10485760,-21>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,13107200,-16>>,y|-><<-1,8388608,-22>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,9830400,-16>>,y|-><<-1,12582912,-23>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,8388608,-16>>,y|-><<-1,10737418,-23>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,13107200,-17>>,y|-><<-1,8388608,-23>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,12451840,-17>>,y|-><<-1,15938355,-24>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,11730944,-17>>,y|-><<-1,15015608,-24>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,11599872,-17>>,y|-><<-1,14847836,-24>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,11403264,-17>>,y|-><<-1,14596178,-24>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,10485760,-17>>,y|-><<-1,13421773,-24>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,8388608,-17>>,y|-><<-1,10737418,-24>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,13107200,-18>>,y|-><<-1,8388608,-24>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,11272192,-18>>,y|-><<-1,14428406,-25>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,15728640,-19>>,y|-><<-1,10066330,-25>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,10485760,-19>>,y|-><<-1,13421773,-26>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,8650752,-19>>,y|-><<-1,11072963,-26>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,16252928,-20>>,y|-><<-1,10401874,-26>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,10485760,-20>>,y|-><<-1,13421773,-27>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,8388608,-20>>,y|-><<-1,10737418,-27>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,10485760,-21>>,y|-><<-1,13421773,-28>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,12582912,-22>>,y|-><<-1,16106127,-29>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,8388608,-22>>,y|-><<-1,10737418,-29>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,12582912,-23>>,y|-><<-1,16106127,-30>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,8388608,-23>>,y|-><<-1,10737418,-30>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,12582912,-24>>,y|-><<-1,16106127,-31>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,8388608,-24>>,y|-><<-1,10737418,-31>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,8388608,-25>>,y|-><<-1,10737418,-32>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,13421773,-27>>,y|-><<-1,8589935,-33>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,8589935,-33>>,y|-><<-1,10995117,-40>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,8388608,-43>>,y|-><<-1,10737418,-50>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<-1,8388608,-63>>,y|-><<-1,10737418,-70>>,g|-><<1,10737418,-30>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<0,0,0>>,y|-><<0,0,0>>,g|-><<0,-2,0>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,8388608,-63>>,y|-><<1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,8388608,-43>>,y|-><<1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,8589935,-33>>,y|-><<1,8589935,-33>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,13421773,-27>>,y|-><<1,13421773,-27>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,8388608,-25>>,y|-><<1,8388608,-25>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,8388608,-24>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,12582912,-24>>,y|-><<1,12582912,-24>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,12582912,-23>>,y|-><<1,12582912,-23>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,8388608,-22>>,y|-><<1,8388608,-22>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,12582912,-22>>,y|-><<1,12582912,-22>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,10485760,-21>>,y|-><<1,10485760,-21>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,8388608,-20>>,y|-><<1,8388608,-20>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,10485760,-20>>,y|-><<1,10485760,-20>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,16252928,-20>>,y|-><<1,16252928,-20>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,8650752,-19>>,y|-><<1,8650752,-19>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,10485760,-19>>,y|-><<1,10485760,-19>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,15728640,-19>>,y|-><<1,15728640,-19>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,11272192,-18>>,y|-><<1,11272192,-18>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,13107200,-18>>,y|-><<1,13107200,-18>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,8388608,-17>>,y|-><<1,8388608,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,10485760,-17>>,y|-><<1,10485760,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,11403264,-17>>,y|-><<1,11403264,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,11599872,-17>>,y|-><<1,11599872,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,11730944,-17>>,y|-><<1,11730944,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,12451840,-17>>,y|-><<1,12451840,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,13107200,-17>>,y|-><<1,13107200,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,8388608,-16>>,y|-><<1,8388608,-16>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,9830400,-16>>,y|-><<1,9830400,-16>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,13107200,-16>>,y|-><<1,13107200,-16>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,16384000,-15>>,y|-><<1,16384000,-15>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,11624448,-14>>,y|-><<1,11624448,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,11640832,-14>>,y|-><<1,11640832,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,12206080,-14>>,y|-><<1,12206080,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,13107200,-14>>,y|-><<1,13107200,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,16384000,-14>>,y|-><<1,16384000,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,8388608,-11>>,y|-><<1,8388608,-11>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,10240000,-10>>,y|-><<1,10240000,-10>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,8388608,-7>>,y|-><<1,8388608,-7>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,16000000,-4>>,y|-><<1,16000000,-4>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,15432099,3>>,y|-><<1,15432099,3>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,9765625,10>>,y|-><<1,9765625,10>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,14901161,26>>,y|-><<1,14901161,26>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,11368684,43>>,y|-><<1,11368684,43>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,13234890,76>>,y|-><<1,13234890,76>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,14791142,104>>,y|-><<1,14791142,104>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,8388608,-172>>,y|-><<1,8388608,-172>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,8388608,-163>>,y|-><<1,8388608,-163>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,8388608,-149>>,y|-><<1,8388608,-149>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,10633824,-123>>,y|-><<1,10633824,-123>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,12379400,-90>>,y|-><<1,12379400,-90>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"lrelu",k|->0,x|-><<1,14411519,-57>>,y|-><<1,14411519,-57>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,14791142,104>>,y|-><<-1,14791142,102>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,13234890,76>>,y|-><<-1,13234890,74>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,11368684,43>>,y|-><<-1,11368684,41>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,14901161,26>>,y|-><<-1,14901161,24>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,9765625,10>>,y|-><<-1,9765625,8>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,15432099,3>>,y|-><<-1,15432099,1>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,16000000,-4>>,y|-><<-1,16000000,-6>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,8388608,-7>>,y|-><<-1,8388608,-9>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,10240000,-10>>,y|-><<-1,10240000,-12>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,8388608,-11>>,y|-><<-1,8388608,-13>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,16384000,-14>>,y|-><<-1,16384000,-16>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,13107200,-14>>,y|-><<-1,13107200,-16>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,12206080,-14>>,y|-><<-1,12206080,-16>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,11640832,-14>>,y|-><<-1,11640832,-16>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,11624448,-14>>,y|-><<-1,11624448,-16>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,16384000,-15>>,y|-><<-1,16384000,-17>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,13107200,-16>>,y|-><<-1,13107200,-18>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,9830400,-16>>,y|-><<-1,9830400,-18>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,8388608,-16>>,y|-><<-1,8388608,-18>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,13107200,-17>>,y|-><<-1,13107200,-19>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,12451840,-17>>,y|-><<-1,12451840,-19>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,11730944,-17>>,y|-><<-1,11730944,-19>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,11599872,-17>>,y|-><<-1,11599872,-19>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,11403264,-17>>,y|-><<-1,11403264,-19>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,10485760,-17>>,y|-><<-1,10485760,-19>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,8388608,-17>>,y|-><<-1,8388608,-19>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,13107200,-18>>,y|-><<-1,13107200,-20>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,11272192,-18>>,y|-><<-1,11272192,-20>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,15728640,-19>>,y|-><<-1,15728640,-21>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,10485760,-19>>,y|-><<-1,10485760,-21>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,8650752,-19>>,y|-><<-1,8650752,-21>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,16252928,-20>>,y|-><<-1,16252928,-22>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,10485760,-20>>,y|-><<-1,10485760,-22>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,8388608,-20>>,y|-><<-1,8388608,-22>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,10485760,-21>>,y|-><<-1,10485760,-23>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,12582912,-22>>,y|-><<-1,12582912,-24>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,8388608,-22>>,y|-><<-1,8388608,-24>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,12582912,-23>>,y|-><<-1,12582912,-25>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,8388608,-23>>,y|-><<-1,8388608,-25>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,12582912,-24>>,y|-><<-1,12582912,-26>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,8388608,-24>>,y|-><<-1,8388608,-26>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,8388608,-25>>,y|-><<-1,8388608,-27>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,13421773,-27>>,y|-><<-1,13421773,-29>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,8589935,-33>>,y|-><<-1,8589935,-35>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,8388608,-43>>,y|-><<-1,8388608,-45>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<-1,8388608,-63>>,y|-><<-1,8388608,-65>>,g|-><<1,8388608,-25>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<0,0,0>>,y|-><<0,0,0>>,g|-><<0,-2,0>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,8388608,-63>>,y|-><<1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,8388608,-43>>,y|-><<1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,8589935,-33>>,y|-><<1,8589935,-33>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,13421773,-27>>,y|-><<1,13421773,-27>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,8388608,-25>>,y|-><<1,8388608,-25>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,8388608,-24>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,12582912,-24>>,y|-><<1,12582912,-24>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,12582912,-23>>,y|-><<1,12582912,-23>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,8388608,-22>>,y|-><<1,8388608,-22>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,12582912,-22>>,y|-><<1,12582912,-22>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,10485760,-21>>,y|-><<1,10485760,-21>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,8388608,-20>>,y|-><<1,8388608,-20>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,10485760,-20>>,y|-><<1,10485760,-20>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,16252928,-20>>,y|-><<1,16252928,-20>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,8650752,-19>>,y|-><<1,8650752,-19>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,10485760,-19>>,y|-><<1,10485760,-19>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,15728640,-19>>,y|-><<1,15728640,-19>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,11272192,-18>>,y|-><<1,11272192,-18>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,13107200,-18>>,y|-><<1,13107200,-18>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,8388608,-17>>,y|-><<1,8388608,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,10485760,-17>>,y|-><<1,10485760,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,11403264,-17>>,y|-><<1,11403264,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,11599872,-17>>,y|-><<1,11599872,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,11730944,-17>>,y|-><<1,11730944,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,12451840,-17>>,y|-><<1,12451840,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,13107200,-17>>,y|-><<1,13107200,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,8388608,-16>>,y|-><<1,8388608,-16>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,9830400,-16>>,y|-><<1,9830400,-16>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,13107200,-16>>,y|-><<1,13107200,-16>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,16384000,-15>>,y|-><<1,16384000,-15>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,11624448,-14>>,y|-><<1,11624448,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,11640832,-14>>,y|-><<1,11640832,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,12206080,-14>>,y|-><<1,12206080,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,13107200,-14>>,y|-><<1,13107200,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,16384000,-14>>,y|-><<1,16384000,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,8388608,-11>>,y|-><<1,8388608,-11>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,10240000,-10>>,y|-><<1,10240000,-10>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,8388608,-7>>,y|-><<1,8388608,-7>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,16000000,-4>>,y|-><<1,16000000,-4>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,15432099,3>>,y|-><<1,15432099,3>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,9765625,10>>,y|-><<1,9765625,10>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,14901161,26>>,y|-><<1,14901161,26>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,11368684,43>>,y|-><<1,11368684,43>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,13234890,76>>,y|-><<1,13234890,76>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,14791142,104>>,y|-><<1,14791142,104>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,8388608,-172>>,y|-><<1,8388608,-172>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,8388608,-163>>,y|-><<1,8388608,-163>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,8388608,-149>>,y|-><<1,8388608,-149>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,10633824,-123>>,y|-><<1,10633824,-123>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,12379400,-90>>,y|-><<1,12379400,-90>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->1,x|-><<1,14411519,-57>>,y|-><<1,14411519,-57>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"elu",k|->1,x|-><<-1,14791142,104>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,13234890,76>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,11368684,43>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,14901161,26>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,9765625,10>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,15432099,3>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,16000000,-4>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,8388608,-7>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,10240000,-10>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,8388608,-11>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,16384000,-14>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,13107200,-14>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,12206080,-14>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,11640832,-14>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,11624448,-14>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,16384000,-15>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,13107200,-16>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,9830400,-16>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,8388608,-16>>,y|-><<-1,8388608,-25>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,13107200,-17>>,y|-><<-1,8388608,-25>>,g|-><<1,13918457,-170>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,12451840,-17>>,y|-><<-1,8388608,-25>>,g|-><<1,16138142,-163>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,11730944,-17>>,y|-><<-1,8388608,-25>>,g|-><<1,15425285,-155>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,11599872,-17>>,y|-><<-1,8388608,-25>>,g|-><<1,10482568,-153>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,11403264,-17>>,y|-><<-1,8388608,-25>>,g|-><<1,11744903,-151>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,10485760,-17>>,y|-><<-1,8388608,-25>>,g|-><<1,12577978,-141>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,8388608,-17>>,y|-><<-1,8388608,-25>>,g|-><<1,13323940,-118>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,13107200,-18>>,y|-><<-1,8388608,-25>>,g|-><<1,15281131,-98>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,11272192,-18>>,y|-><<-1,8388608,-25>>,g|-><<1,16365034,-88>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,15728640,-19>>,y|-><<-1,8388608,-25>>,g|-><<1,13809414,-69>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,10485760,-19>>,y|-><<-1,8388608,-25>>,g|-><<1,9282611,-54>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,8650752,-19>>,y|-><<-1,16777215,-26>>,g|-><<1,9606183,-49>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,16252928,-20>>,y|-><<-1,16777213,-26>>,g|-><<1,13056156,-48>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,10485760,-20>>,y|-><<-1,16776454,-26>>,g|-><<1,12479438,-40>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,8388608,-20>>,y|-><<-1,16771588,-26>>,g|-><<1,11526408,-37>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,10485760,-21>>,y|-><<-1,16664172,-26>>,g|-><<1,14469631,-33>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,12582912,-22>>,y|-><<-1,15941928,-26>>,g|-><<1,13364614,-30>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,8388608,-22>>,y|-><<-1,14506667,-26>>,g|-><<1,9082197,-28>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,12582912,-23>>,y|-><<-1,13033713,-26>>,g|-><<1,14974012,-28>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,8388608,-23>>,y|-><<-1,10605223,-26>>,g|-><<1,12343986,-27>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,12582912,-24>>,y|-><<-1,8852220,-26>>,g|-><<1,15849991,-27>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,8388608,-24>>,y|-><<-1,13202640,-27>>,g|-><<1,10175896,-26>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,8388608,-25>>,y|-><<-1,14844428,-28>>,g|-><<1,13066109,-26>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,13421773,-27>>,y|-><<-1,12772506,-29>>,g|-><<1,15180653,-26>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,8589935,-33>>,y|-><<-1,8585641,-35>>,g|-><<1,16760447,-26>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,8388608,-43>>,y|-><<-1,16777208,-46>>,g|-><<1,16777200,-26>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<-1,8388608,-63>>,y|-><<-1,8388608,-65>>,g|-><<1,8388608,-25>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<0,0,0>>,y|-><<0,0,0>>,g|-><<0,-2,0>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,8388608,-63>>,y|-><<1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,8388608,-43>>,y|-><<1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,8589935,-33>>,y|-><<1,8589935,-33>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,13421773,-27>>,y|-><<1,13421773,-27>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,8388608,-25>>,y|-><<1,8388608,-25>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,8388608,-24>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,12582912,-24>>,y|-><<1,12582912,-24>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,12582912,-23>>,y|-><<1,12582912,-23>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,8388608,-22>>,y|-><<1,8388608,-22>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,12582912,-22>>,y|-><<1,12582912,-22>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,10485760,-21>>,y|-><<1,10485760,-21>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,8388608,-20>>,y|-><<1,8388608,-20>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,10485760,-20>>,y|-><<1,10485760,-20>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,16252928,-20>>,y|-><<1,16252928,-20>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,8650752,-19>>,y|-><<1,8650752,-19>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,10485760,-19>>,y|-><<1,10485760,-19>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,15728640,-19>>,y|-><<1,15728640,-19>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,11272192,-18>>,y|-><<1,11272192,-18>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,13107200,-18>>,y|-><<1,13107200,-18>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,8388608,-17>>,y|-><<1,8388608,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,10485760,-17>>,y|-><<1,10485760,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,11403264,-17>>,y|-><<1,11403264,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,11599872,-17>>,y|-><<1,11599872,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,11730944,-17>>,y|-><<1,11730944,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,12451840,-17>>,y|-><<1,12451840,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,13107200,-17>>,y|-><<1,13107200,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,8388608,-16>>,y|-><<1,8388608,-16>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,9830400,-16>>,y|-><<1,9830400,-16>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,13107200,-16>>,y|-><<1,13107200,-16>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,16384000,-15>>,y|-><<1,16384000,-15>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,11624448,-14>>,y|-><<1,11624448,-14>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,11640832,-14>>,y|-><<1,11640832,-14>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,12206080,-14>>,y|-><<1,12206080,-14>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,13107200,-14>>,y|-><<1,13107200,-14>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,16384000,-14>>,y|-><<1,16384000,-14>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,8388608,-11>>,y|-><<1,8388608,-11>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,10240000,-10>>,y|-><<1,10240000,-10>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,8388608,-7>>,y|-><<1,8388608,-7>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,16000000,-4>>,y|-><<1,16000000,-4>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,15432099,3>>,y|-><<1,15432099,3>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,9765625,10>>,y|-><<1,9765625,10>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,14901161,26>>,y|-><<1,14901161,26>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,11368684,43>>,y|-><<1,11368684,43>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,13234890,76>>,y|-><<1,13234890,76>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,14791142,104>>,y|-><<1,14791142,104>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,8388608,-172>>,y|-><<1,8388608,-172>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,8388608,-163>>,y|-><<1,8388608,-163>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,8388608,-149>>,y|-><<1,8388608,-149>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,10633824,-123>>,y|-><<1,10633824,-123>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,12379400,-90>>,y|-><<1,12379400,-90>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->1,x|-><<1,14411519,-57>>,y|-><<1,14411519,-57>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"prelu",k|->2,x|-><<-1,14791142,104>>,y|-><<-1,14791142,103>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,13234890,76>>,y|-><<-1,13234890,75>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,11368684,43>>,y|-><<-1,11368684,42>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,14901161,26>>,y|-><<-1,14901161,25>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,9765625,10>>,y|-><<-1,9765625,9>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,15432099,3>>,y|-><<-1,15432099,2>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,16000000,-4>>,y|-><<-1,16000000,-5>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,8388608,-7>>,y|-><<-1,8388608,-8>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,10240000,-10>>,y|-><<-1,10240000,-11>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,8388608,-11>>,y|-><<-1,8388608,-12>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,16384000,-14>>,y|-><<-1,16384000,-15>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,13107200,-14>>,y|-><<-1,13107200,-15>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,12206080,-14>>,y|-><<-1,12206080,-15>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,11640832,-14>>,y|-><<-1,11640832,-15>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,11624448,-14>>,y|-><<-1,11624448,-15>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,16384000,-15>>,y|-><<-1,16384000,-16>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,13107200,-16>>,y|-><<-1,13107200,-17>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,9830400,-16>>,y|-><<-1,9830400,-17>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,8388608,-16>>,y|-><<-1,8388608,-17>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,13107200,-17>>,y|-><<-1,13107200,-18>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,12451840,-17>>,y|-><<-1,12451840,-18>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,11730944,-17>>,y|-><<-1,11730944,-18>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,11599872,-17>>,y|-><<-1,11599872,-18>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,11403264,-17>>,y|-><<-1,11403264,-18>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,10485760,-17>>,y|-><<-1,10485760,-18>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,8388608,-17>>,y|-><<-1,8388608,-18>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,13107200,-18>>,y|-><<-1,13107200,-19>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,11272192,-18>>,y|-><<-1,11272192,-19>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,15728640,-19>>,y|-><<-1,15728640,-20>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,10485760,-19>>,y|-><<-1,10485760,-20>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,8650752,-19>>,y|-><<-1,8650752,-20>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,16252928,-20>>,y|-><<-1,16252928,-21>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,10485760,-20>>,y|-><<-1,10485760,-21>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,8388608,-20>>,y|-><<-1,8388608,-21>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,10485760,-21>>,y|-><<-1,10485760,-22>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,12582912,-22>>,y|-><<-1,12582912,-23>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,8388608,-22>>,y|-><<-1,8388608,-23>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,12582912,-23>>,y|-><<-1,12582912,-24>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,8388608,-23>>,y|-><<-1,8388608,-24>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,12582912,-24>>,y|-><<-1,12582912,-25>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,8388608,-24>>,y|-><<-1,8388608,-25>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,8388608,-25>>,y|-><<-1,8388608,-26>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,13421773,-27>>,y|-><<-1,13421773,-28>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,8589935,-33>>,y|-><<-1,8589935,-34>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,8388608,-43>>,y|-><<-1,8388608,-44>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<-1,8388608,-63>>,y|-><<-1,8388608,-64>>,g|-><<1,8388608,-24>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<0,0,0>>,y|-><<0,0,0>>,g|-><<0,-2,0>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,8388608,-63>>,y|-><<1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,8388608,-43>>,y|-><<1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,8589935,-33>>,y|-><<1,8589935,-33>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,13421773,-27>>,y|-><<1,13421773,-27>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,8388608,-25>>,y|-><<1,8388608,-25>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,8388608,-24>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,12582912,-24>>,y|-><<1,12582912,-24>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,12582912,-23>>,y|-><<1,12582912,-23>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,8388608,-22>>,y|-><<1,8388608,-22>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,12582912,-22>>,y|-><<1,12582912,-22>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,10485760,-21>>,y|-><<1,10485760,-21>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,8388608,-20>>,y|-><<1,8388608,-20>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,10485760,-20>>,y|-><<1,10485760,-20>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,16252928,-20>>,y|-><<1,16252928,-20>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,8650752,-19>>,y|-><<1,8650752,-19>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,10485760,-19>>,y|-><<1,10485760,-19>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,15728640,-19>>,y|-><<1,15728640,-19>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,11272192,-18>>,y|-><<1,11272192,-18>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,13107200,-18>>,y|-><<1,13107200,-18>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,8388608,-17>>,y|-><<1,8388608,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,10485760,-17>>,y|-><<1,10485760,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,11403264,-17>>,y|-><<1,11403264,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,11599872,-17>>,y|-><<1,11599872,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,11730944,-17>>,y|-><<1,11730944,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,12451840,-17>>,y|-><<1,12451840,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,13107200,-17>>,y|-><<1,13107200,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,8388608,-16>>,y|-><<1,8388608,-16>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,9830400,-16>>,y|-><<1,9830400,-16>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,13107200,-16>>,y|-><<1,13107200,-16>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,16384000,-15>>,y|-><<1,16384000,-15>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,11624448,-14>>,y|-><<1,11624448,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,11640832,-14>>,y|-><<1,11640832,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,12206080,-14>>,y|-><<1,12206080,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,13107200,-14>>,y|-><<1,13107200,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,16384000,-14>>,y|-><<1,16384000,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,8388608,-11>>,y|-><<1,8388608,-11>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,10240000,-10>>,y|-><<1,10240000,-10>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,8388608,-7>>,y|-><<1,8388608,-7>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,16000000,-4>>,y|-><<1,16000000,-4>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,15432099,3>>,y|-><<1,15432099,3>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,9765625,10>>,y|-><<1,9765625,10>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,14901161,26>>,y|-><<1,14901161,26>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,11368684,43>>,y|-><<1,11368684,43>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,13234890,76>>,y|-><<1,13234890,76>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,14791142,104>>,y|-><<1,14791142,104>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,8388608,-172>>,y|-><<1,8388608,-172>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,8388608,-163>>,y|-><<1,8388608,-163>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,8388608,-149>>,y|-><<1,8388608,-149>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,10633824,-123>>,y|-><<1,10633824,-123>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,12379400,-90>>,y|-><<1,12379400,-90>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->2,x|-><<1,14411519,-57>>,y|-><<1,14411519,-57>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"elu",k|->2,x|-><<-1,14791142,104>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,13234890,76>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,11368684,43>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,14901161,26>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,9765625,10>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,15432099,3>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,16000000,-4>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,8388608,-7>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,10240000,-10>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,8388608,-11>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,16384000,-14>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,13107200,-14>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,12206080,-14>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,11640832,-14>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,11624448,-14>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,16384000,-15>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,13107200,-16>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,9830400,-16>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,8388608,-16>>,y|-><<-1,8388608,-24>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,13107200,-17>>,y|-><<-1,8388608,-24>>,g|-><<1,13918457,-169>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,12451840,-17>>,y|-><<-1,8388608,-24>>,g|-><<1,16138142,-162>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,11730944,-17>>,y|-><<-1,8388608,-24>>,g|-><<1,15425285,-154>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,11599872,-17>>,y|-><<-1,8388608,-24>>,g|-><<1,10482568,-152>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,11403264,-17>>,y|-><<-1,8388608,-24>>,g|-><<1,11744903,-150>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,10485760,-17>>,y|-><<-1,8388608,-24>>,g|-><<1,12577978,-140>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,8388608,-17>>,y|-><<-1,8388608,-24>>,g|-><<1,13323940,-117>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,13107200,-18>>,y|-><<-1,8388608,-24>>,g|-><<1,15281131,-97>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,11272192,-18>>,y|-><<-1,8388608,-24>>,g|-><<1,16365034,-87>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,15728640,-19>>,y|-><<-1,8388608,-24>>,g|-><<1,13809414,-68>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,10485760,-19>>,y|-><<-1,8388608,-24>>,g|-><<1,9282611,-53>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,8650752,-19>>,y|-><<-1,16777215,-25>>,g|-><<1,9606183,-48>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,16252928,-20>>,y|-><<-1,16777213,-25>>,g|-><<1,13056156,-47>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,10485760,-20>>,y|-><<-1,16776454,-25>>,g|-><<1,12479438,-39>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,8388608,-20>>,y|-><<-1,16771588,-25>>,g|-><<1,11526408,-36>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,10485760,-21>>,y|-><<-1,16664172,-25>>,g|-><<1,14469631,-32>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,12582912,-22>>,y|-><<-1,15941928,-25>>,g|-><<1,13364614,-29>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,8388608,-22>>,y|-><<-1,14506667,-25>>,g|-><<1,9082197,-27>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,12582912,-23>>,y|-><<-1,13033713,-25>>,g|-><<1,14974012,-27>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,8388608,-23>>,y|-><<-1,10605223,-25>>,g|-><<1,12343986,-26>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,12582912,-24>>,y|-><<-1,8852220,-25>>,g|-><<1,15849991,-26>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,8388608,-24>>,y|-><<-1,13202640,-26>>,g|-><<1,10175896,-25>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,8388608,-25>>,y|-><<-1,14844428,-27>>,g|-><<1,13066109,-25>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,13421773,-27>>,y|-><<-1,12772506,-28>>,g|-><<1,15180653,-25>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,8589935,-33>>,y|-><<-1,8585641,-34>>,g|-><<1,16760447,-25>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,8388608,-43>>,y|-><<-1,16777208,-45>>,g|-><<1,16777200,-25>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<-1,8388608,-63>>,y|-><<-1,8388608,-64>>,g|-><<1,8388608,-24>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<0,0,0>>,y|-><<0,0,0>>,g|-><<0,-2,0>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,8388608,-63>>,y|-><<1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,8388608,-43>>,y|-><<1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,8589935,-33>>,y|-><<1,8589935,-33>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,13421773,-27>>,y|-><<1,13421773,-27>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,8388608,-25>>,y|-><<1,8388608,-25>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,8388608,-24>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,12582912,-24>>,y|-><<1,12582912,-24>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,12582912,-23>>,y|-><<1,12582912,-23>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,8388608,-22>>,y|-><<1,8388608,-22>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,12582912,-22>>,y|-><<1,12582912,-22>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,10485760,-21>>,y|-><<1,10485760,-21>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,8388608,-20>>,y|-><<1,8388608,-20>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,10485760,-20>>,y|-><<1,10485760,-20>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,16252928,-20>>,y|-><<1,16252928,-20>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,8650752,-19>>,y|-><<1,8650752,-19>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,10485760,-19>>,y|-><<1,10485760,-19>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,15728640,-19>>,y|-><<1,15728640,-19>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,11272192,-18>>,y|-><<1,11272192,-18>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,13107200,-18>>,y|-><<1,13107200,-18>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,8388608,-17>>,y|-><<1,8388608,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,10485760,-17>>,y|-><<1,10485760,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,11403264,-17>>,y|-><<1,11403264,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,11599872,-17>>,y|-><<1,11599872,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,11730944,-17>>,y|-><<1,11730944,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,12451840,-17>>,y|-><<1,12451840,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,13107200,-17>>,y|-><<1,13107200,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,8388608,-16>>,y|-><<1,8388608,-16>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,9830400,-16>>,y|-><<1,9830400,-16>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,13107200,-16>>,y|-><<1,13107200,-16>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,16384000,-15>>,y|-><<1,16384000,-15>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,11624448,-14>>,y|-><<1,11624448,-14>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,11640832,-14>>,y|-><<1,11640832,-14>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,12206080,-14>>,y|-><<1,12206080,-14>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,13107200,-14>>,y|-><<1,13107200,-14>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,16384000,-14>>,y|-><<1,16384000,-14>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,8388608,-11>>,y|-><<1,8388608,-11>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,10240000,-10>>,y|-><<1,10240000,-10>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,8388608,-7>>,y|-><<1,8388608,-7>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,16000000,-4>>,y|-><<1,16000000,-4>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,15432099,3>>,y|-><<1,15432099,3>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,9765625,10>>,y|-><<1,9765625,10>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,14901161,26>>,y|-><<1,14901161,26>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,11368684,43>>,y|-><<1,11368684,43>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,13234890,76>>,y|-><<1,13234890,76>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,14791142,104>>,y|-><<1,14791142,104>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,8388608,-172>>,y|-><<1,8388608,-172>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,8388608,-163>>,y|-><<1,8388608,-163>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,8388608,-149>>,y|-><<1,8388608,-149>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,10633824,-123>>,y|-><<1,10633824,-123>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,12379400,-90>>,y|-><<1,12379400,-90>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->2,x|-><<1,14411519,-57>>,y|-><<1,14411519,-57>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"prelu",k|->8,x|-><<-1,14791142,104>>,y|-><<-1,-1,0>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,13234890,76>>,y|-><<-1,13234890,77>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,11368684,43>>,y|-><<-1,11368684,44>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,14901161,26>>,y|-><<-1,14901161,27>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,9765625,10>>,y|-><<-1,9765625,11>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,15432099,3>>,y|-><<-1,15432099,4>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,16000000,-4>>,y|-><<-1,16000000,-3>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,8388608,-7>>,y|-><<-1,8388608,-6>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,10240000,-10>>,y|-><<-1,10240000,-9>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,8388608,-11>>,y|-><<-1,8388608,-10>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,16384000,-14>>,y|-><<-1,16384000,-13>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,13107200,-14>>,y|-><<-1,13107200,-13>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,12206080,-14>>,y|-><<-1,12206080,-13>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,11640832,-14>>,y|-><<-1,11640832,-13>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,11624448,-14>>,y|-><<-1,11624448,-13>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,16384000,-15>>,y|-><<-1,16384000,-14>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,13107200,-16>>,y|-><<-1,13107200,-15>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,9830400,-16>>,y|-><<-1,9830400,-15>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,8388608,-16>>,y|-><<-1,8388608,-15>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,13107200,-17>>,y|-><<-1,13107200,-16>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,12451840,-17>>,y|-><<-1,12451840,-16>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,11730944,-17>>,y|-><<-1,11730944,-16>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,11599872,-17>>,y|-><<-1,11599872,-16>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,11403264,-17>>,y|-><<-1,11403264,-16>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,10485760,-17>>,y|-><<-1,10485760,-16>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,8388608,-17>>,y|-><<-1,8388608,-16>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,13107200,-18>>,y|-><<-1,13107200,-17>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,11272192,-18>>,y|-><<-1,11272192,-17>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,15728640,-19>>,y|-><<-1,15728640,-18>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,10485760,-19>>,y|-><<-1,10485760,-18>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,8650752,-19>>,y|-><<-1,8650752,-18>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,16252928,-20>>,y|-><<-1,16252928,-19>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,10485760,-20>>,y|-><<-1,10485760,-19>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,8388608,-20>>,y|-><<-1,8388608,-19>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,10485760,-21>>,y|-><<-1,10485760,-20>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,12582912,-22>>,y|-><<-1,12582912,-21>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,8388608,-22>>,y|-><<-1,8388608,-21>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,12582912,-23>>,y|-><<-1,12582912,-22>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,8388608,-23>>,y|-><<-1,8388608,-22>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,12582912,-24>>,y|-><<-1,12582912,-23>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,8388608,-24>>,y|-><<-1,8388608,-23>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,8388608,-25>>,y|-><<-1,8388608,-24>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,13421773,-27>>,y|-><<-1,13421773,-26>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,8589935,-33>>,y|-><<-1,8589935,-32>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,8388608,-43>>,y|-><<-1,8388608,-42>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<-1,8388608,-63>>,y|-><<-1,8388608,-62>>,g|-><<1,8388608,-22>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<0,0,0>>,y|-><<0,0,0>>,g|-><<0,-2,0>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,8388608,-63>>,y|-><<1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,8388608,-43>>,y|-><<1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,8589935,-33>>,y|-><<1,8589935,-33>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,13421773,-27>>,y|-><<1,13421773,-27>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,8388608,-25>>,y|-><<1,8388608,-25>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,8388608,-24>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,12582912,-24>>,y|-><<1,12582912,-24>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,12582912,-23>>,y|-><<1,12582912,-23>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,8388608,-22>>,y|-><<1,8388608,-22>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,12582912,-22>>,y|-><<1,12582912,-22>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,10485760,-21>>,y|-><<1,10485760,-21>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,8388608,-20>>,y|-><<1,8388608,-20>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,10485760,-20>>,y|-><<1,10485760,-20>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,16252928,-20>>,y|-><<1,16252928,-20>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,8650752,-19>>,y|-><<1,8650752,-19>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,10485760,-19>>,y|-><<1,10485760,-19>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,15728640,-19>>,y|-><<1,15728640,-19>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,11272192,-18>>,y|-><<1,11272192,-18>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,13107200,-18>>,y|-><<1,13107200,-18>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,8388608,-17>>,y|-><<1,8388608,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,10485760,-17>>,y|-><<1,10485760,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,11403264,-17>>,y|-><<1,11403264,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,11599872,-17>>,y|-><<1,11599872,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,11730944,-17>>,y|-><<1,11730944,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,12451840,-17>>,y|-><<1,12451840,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,13107200,-17>>,y|-><<1,13107200,-17>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,8388608,-16>>,y|-><<1,8388608,-16>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,9830400,-16>>,y|-><<1,9830400,-16>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,13107200,-16>>,y|-><<1,13107200,-16>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,16384000,-15>>,y|-><<1,16384000,-15>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,11624448,-14>>,y|-><<1,11624448,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,11640832,-14>>,y|-><<1,11640832,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,12206080,-14>>,y|-><<1,12206080,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,13107200,-14>>,y|-><<1,13107200,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,16384000,-14>>,y|-><<1,16384000,-14>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,8388608,-11>>,y|-><<1,8388608,-11>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,10240000,-10>>,y|-><<1,10240000,-10>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,8388608,-7>>,y|-><<1,8388608,-7>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,16000000,-4>>,y|-><<1,16000000,-4>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,15432099,3>>,y|-><<1,15432099,3>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,9765625,10>>,y|-><<1,9765625,10>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,14901161,26>>,y|-><<1,14901161,26>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,11368684,43>>,y|-><<1,11368684,43>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,13234890,76>>,y|-><<1,13234890,76>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,14791142,104>>,y|-><<1,14791142,104>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,8388608,-172>>,y|-><<1,8388608,-172>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,8388608,-163>>,y|-><<1,8388608,-163>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,8388608,-149>>,y|-><<1,8388608,-149>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,10633824,-123>>,y|-><<1,10633824,-123>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,12379400,-90>>,y|-><<1,12379400,-90>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"prelu",k|->8,x|-><<1,14411519,-57>>,y|-><<1,14411519,-57>>,g|-><<1,8388608,-23>>,w|->2,s|->0],
[f|->"elu",k|->8,x|-><<-1,14791142,104>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,13234890,76>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,11368684,43>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,14901161,26>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,9765625,10>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,15432099,3>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,16000000,-4>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,8388608,-7>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,10240000,-10>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,8388608,-11>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,16384000,-14>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,13107200,-14>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,12206080,-14>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,11640832,-14>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,11624448,-14>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,16384000,-15>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,13107200,-16>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,9830400,-16>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,8388608,-16>>,y|-><<-1,8388608,-22>>,g|-><<0,0,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,13107200,-17>>,y|-><<-1,8388608,-22>>,g|-><<1,13918457,-167>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,12451840,-17>>,y|-><<-1,8388608,-22>>,g|-><<1,16138142,-160>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,11730944,-17>>,y|-><<-1,8388608,-22>>,g|-><<1,15425285,-152>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,11599872,-17>>,y|-><<-1,8388608,-22>>,g|-><<1,10482568,-150>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,11403264,-17>>,y|-><<-1,8388608,-22>>,g|-><<1,11744903,-148>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,10485760,-17>>,y|-><<-1,8388608,-22>>,g|-><<1,12577978,-138>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,8388608,-17>>,y|-><<-1,8388608,-22>>,g|-><<1,13323940,-115>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,13107200,-18>>,y|-><<-1,8388608,-22>>,g|-><<1,15281131,-95>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,11272192,-18>>,y|-><<-1,8388608,-22>>,g|-><<1,16365034,-85>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,15728640,-19>>,y|-><<-1,8388608,-22>>,g|-><<1,13809414,-66>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,10485760,-19>>,y|-><<-1,8388608,-22>>,g|-><<1,9282611,-51>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,8650752,-19>>,y|-><<-1,16777215,-23>>,g|-><<1,9606183,-46>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,16252928,-20>>,y|-><<-1,16777213,-23>>,g|-><<1,13056156,-45>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,10485760,-20>>,y|-><<-1,16776454,-23>>,g|-><<1,12479438,-37>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,8388608,-20>>,y|-><<-1,16771588,-23>>,g|-><<1,11526408,-34>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,10485760,-21>>,y|-><<-1,16664172,-23>>,g|-><<1,14469631,-30>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,12582912,-22>>,y|-><<-1,15941928,-23>>,g|-><<1,13364614,-27>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,8388608,-22>>,y|-><<-1,14506667,-23>>,g|-><<1,9082197,-25>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,12582912,-23>>,y|-><<-1,13033713,-23>>,g|-><<1,14974012,-25>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,8388608,-23>>,y|-><<-1,10605223,-23>>,g|-><<1,12343986,-24>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,12582912,-24>>,y|-><<-1,8852220,-23>>,g|-><<1,15849991,-24>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,8388608,-24>>,y|-><<-1,13202640,-24>>,g|-><<1,10175896,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,8388608,-25>>,y|-><<-1,14844428,-25>>,g|-><<1,13066109,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,13421773,-27>>,y|-><<-1,12772506,-26>>,g|-><<1,15180653,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,8589935,-33>>,y|-><<-1,8585641,-32>>,g|-><<1,16760447,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,8388608,-43>>,y|-><<-1,16777208,-43>>,g|-><<1,16777200,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<-1,8388608,-63>>,y|-><<-1,8388608,-62>>,g|-><<1,8388608,-22>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<0,0,0>>,y|-><<0,0,0>>,g|-><<0,-2,0>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,8388608,-63>>,y|-><<1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,8388608,-43>>,y|-><<1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,8589935,-33>>,y|-><<1,8589935,-33>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,13421773,-27>>,y|-><<1,13421773,-27>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,8388608,-25>>,y|-><<1,8388608,-25>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,8388608,-24>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,12582912,-24>>,y|-><<1,12582912,-24>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,12582912,-23>>,y|-><<1,12582912,-23>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,8388608,-22>>,y|-><<1,8388608,-22>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,12582912,-22>>,y|-><<1,12582912,-22>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,10485760,-21>>,y|-><<1,10485760,-21>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,8388608,-20>>,y|-><<1,8388608,-20>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,10485760,-20>>,y|-><<1,10485760,-20>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,16252928,-20>>,y|-><<1,16252928,-20>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,8650752,-19>>,y|-><<1,8650752,-19>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,10485760,-19>>,y|-><<1,10485760,-19>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,15728640,-19>>,y|-><<1,15728640,-19>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,11272192,-18>>,y|-><<1,11272192,-18>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,13107200,-18>>,y|-><<1,13107200,-18>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,8388608,-17>>,y|-><<1,8388608,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,10485760,-17>>,y|-><<1,10485760,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,11403264,-17>>,y|-><<1,11403264,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,11599872,-17>>,y|-><<1,11599872,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,11730944,-17>>,y|-><<1,11730944,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,12451840,-17>>,y|-><<1,12451840,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,13107200,-17>>,y|-><<1,13107200,-17>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,8388608,-16>>,y|-><<1,8388608,-16>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,9830400,-16>>,y|-><<1,9830400,-16>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,13107200,-16>>,y|-><<1,13107200,-16>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,16384000,-15>>,y|-><<1,16384000,-15>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,11624448,-14>>,y|-><<1,11624448,-14>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,11640832,-14>>,y|-><<1,11640832,-14>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,12206080,-14>>,y|-><<1,12206080,-14>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,13107200,-14>>,y|-><<1,13107200,-14>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,16384000,-14>>,y|-><<1,16384000,-14>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,8388608,-11>>,y|-><<1,8388608,-11>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,10240000,-10>>,y|-><<1,10240000,-10>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,8388608,-7>>,y|-><<1,8388608,-7>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,16000000,-4>>,y|-><<1,16000000,-4>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,15432099,3>>,y|-><<1,15432099,3>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,9765625,10>>,y|-><<1,9765625,10>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,14901161,26>>,y|-><<1,14901161,26>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,11368684,43>>,y|-><<1,11368684,43>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,13234890,76>>,y|-><<1,13234890,76>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,14791142,104>>,y|-><<1,14791142,104>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,8388608,-172>>,y|-><<1,8388608,-172>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,8388608,-163>>,y|-><<1,8388608,-163>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,8388608,-149>>,y|-><<1,8388608,-149>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,10633824,-123>>,y|-><<1,10633824,-123>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,12379400,-90>>,y|-><<1,12379400,-90>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"elu",k|->8,x|-><<1,14411519,-57>>,y|-><<1,14411519,-57>>,g|-><<1,8388608,-23>>,w|->16,s|->1],
[f|->"powf",k|->-8,x|-><<1,8388608,-63>>,y|-><<1,8388608,57>>,g|-><<-1,8388608,98>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,8388608,-43>>,y|-><<1,8388608,17>>,g|-><<-1,8388608,38>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,8589935,-33>>,y|-><<1,15999998,-4>>,g|-><<-1,15624998,7>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,13421773,-27>>,y|-><<1,13107200,-17>>,g|-><<-1,16383999,-13>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,8388608,-25>>,y|-><<1,8388608,-19>>,g|-><<-1,8388608,-16>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,8388608,-24>>,y|-><<1,8388608,-21>>,g|-><<-1,8388608,-19>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,12582912,-24>>,y|-><<1,14913081,-23>>,g|-><<-1,9942054,-21>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<-1,8388608,-22>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,12582912,-23>>,y|-><<1,14913081,-25>>,g|-><<-1,9942054,-24>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,8388608,-22>>,y|-><<1,8388608,-25>>,g|-><<-1,8388608,-25>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,12582912,-22>>,y|-><<1,14913081,-27>>,g|-><<-1,9942054,-27>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,10485760,-21>>,y|-><<1,10737418,-28>>,g|-><<-1,8589935,-29>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,8388608,-20>>,y|-><<1,8388608,-29>>,g|-><<-1,8388608,-31>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,10485760,-20>>,y|-><<1,10737418,-30>>,g|-><<-1,8589935,-32>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,16252928,-20>>,y|-><<1,8938538,-31>>,g|-><<-1,9226877,-34>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,8650752,-19>>,y|-><<1,15775821,-32>>,g|-><<-1,15297766,-35>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,10485760,-19>>,y|-><<1,10737418,-32>>,g|-><<-1,8589935,-35>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,15728640,-19>>,y|-><<1,9544372,-33>>,g|-><<-1,10180663,-37>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,11272192,-18>>,y|-><<1,9291438,-34>>,g|-><<-1,13829117,-39>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,13107200,-18>>,y|-><<1,13743895,-35>>,g|-><<-1,8796093,-39>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,8388608,-17>>,y|-><<1,8388608,-35>>,g|-><<-1,8388608,-40>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,10485760,-17>>,y|-><<1,10737418,-36>>,g|-><<-1,8589935,-41>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,11403264,-17>>,y|-><<1,9079069,-36>>,g|-><<-1,13357711,-42>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,11599872,-17>>,y|-><<1,8773913,-36>>,g|-><<-1,12689953,-42>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,11730944,-17>>,y|-><<1,8578943,-36>>,g|-><<-1,12269326,-42>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,12451840,-17>>,y|-><<1,15228693,-37>>,g|-><<-1,10259330,-42>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,13107200,-17>>,y|-><<1,13743895,-37>>,g|-><<-1,8796093,-42>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,8388608,-16>>,y|-><<1,8388608,-37>>,g|-><<-1,8388608,-43>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,9830400,-16>>,y|-><<1,12216796,-38>>,g|-><<-1,10424999,-44>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,13107200,-16>>,y|-><<1,13743895,-39>>,g|-><<-1,8796093,-45>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,16384000,-15>>,y|-><<1,8796093,-41>>,g|-><<-1,9007199,-49>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,11624448,-14>>,y|-><<1,8736853,-42>>,g|-><<-1,12609637,-51>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,11640832,-14>>,y|-><<1,8712277,-42>>,g|-><<-1,12556469,-51>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,12206080,-14>>,y|-><<1,15848102,-43>>,g|-><<-1,10891582,-51>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,13107200,-14>>,y|-><<1,13743895,-43>>,g|-><<-1,8796093,-51>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,16384000,-14>>,y|-><<1,8796093,-43>>,g|-><<-1,9007199,-52>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,8388608,-11>>,y|-><<1,8388608,-47>>,g|-><<-1,8388608,-58>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,10240000,-10>>,y|-><<1,11258999,-50>>,g|-><<-1,9223372,-62>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,8388608,-7>>,y|-><<1,8388608,-55>>,g|-><<-1,8388608,-70>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,16000000,-4>>,y|-><<1,9223372,-63>>,g|-><<-1,9671407,-82>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,15432099,3>>,y|-><<1,9914703,-77>>,g|-><<-1,10778904,-103>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,9765625,10>>,y|-><<1,12379400,-90>>,g|-><<-1,10633824,-122>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,14901161,26>>,y|-><<1,10633824,-123>>,g|-><<-1,11972622,-172>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,11368684,43>>,y|-><<1,9134385,-156>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,13234890,76>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,14791142,104>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,8388608,-172>>,y|-><<1,-1,0>>,g|-><<-1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,8388608,-163>>,y|-><<1,-1,0>>,g|-><<-1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,8388608,-149>>,y|-><<1,-1,0>>,g|-><<-1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,10633824,-123>>,y|-><<1,-1,0>>,g|-><<-1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,12379400,-90>>,y|-><<1,-1,0>>,g|-><<-1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->-8,x|-><<1,14411519,-57>>,y|-><<1,11368683,43>>,g|-><<-1,13234889,77>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,8388608,-63>>,y|-><<1,8388608,17>>,g|-><<-1,8388608,57>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,8388608,-43>>,y|-><<1,8388608,-3>>,g|-><<-1,8388608,17>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,8589935,-33>>,y|-><<1,16383999,-14>>,g|-><<-1,15999998,-4>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,13421773,-27>>,y|-><<1,10485760,-20>>,g|-><<-1,13107200,-17>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,8388608,-25>>,y|-><<1,8388608,-21>>,g|-><<-1,8388608,-19>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,8388608,-24>>,y|-><<1,8388608,-22>>,g|-><<-1,8388608,-21>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,12582912,-24>>,y|-><<1,11184811,-23>>,g|-><<-1,14913081,-23>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<-1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,12582912,-23>>,y|-><<1,11184811,-24>>,g|-><<-1,14913081,-25>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,8388608,-22>>,y|-><<1,8388608,-24>>,g|-><<-1,8388608,-25>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,12582912,-22>>,y|-><<1,11184811,-25>>,g|-><<-1,14913081,-27>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,10485760,-21>>,y|-><<1,13421773,-26>>,g|-><<-1,10737418,-28>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,8388608,-20>>,y|-><<1,8388608,-26>>,g|-><<-1,8388608,-29>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,10485760,-20>>,y|-><<1,13421773,-27>>,g|-><<-1,10737418,-30>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,16252928,-20>>,y|-><<1,8659208,-27>>,g|-><<-1,8938538,-31>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,8650752,-19>>,y|-><<1,16268816,-28>>,g|-><<-1,15775821,-32>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,10485760,-19>>,y|-><<1,13421773,-28>>,g|-><<-1,10737418,-32>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,15728640,-19>>,y|-><<1,8947849,-28>>,g|-><<-1,9544372,-33>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,11272192,-18>>,y|-><<1,12485370,-29>>,g|-><<-1,9291438,-34>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,13107200,-18>>,y|-><<1,10737418,-29>>,g|-><<-1,13743895,-35>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,8388608,-17>>,y|-><<1,8388608,-29>>,g|-><<-1,8388608,-35>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,10485760,-17>>,y|-><<1,13421773,-30>>,g|-><<-1,10737418,-36>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,11403264,-17>>,y|-><<1,12341860,-30>>,g|-><<-1,9079069,-36>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,11599872,-17>>,y|-><<1,12132676,-30>>,g|-><<-1,8773913,-36>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,11730944,-17>>,y|-><<1,11997115,-30>>,g|-><<-1,8578943,-36>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,12451840,-17>>,y|-><<1,11302546,-30>>,g|-><<-1,15228693,-37>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,13107200,-17>>,y|-><<1,10737418,-30>>,g|-><<-1,13743895,-37>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,8388608,-16>>,y|-><<1,8388608,-30>>,g|-><<-1,8388608,-37>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,9830400,-16>>,y|-><<1,14316558,-31>>,g|-><<-1,12216796,-38>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,13107200,-16>>,y|-><<1,10737418,-31>>,g|-><<-1,13743895,-39>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,16384000,-15>>,y|-><<1,8589935,-32>>,g|-><<-1,8796093,-41>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,11624448,-14>>,y|-><<1,12107025,-33>>,g|-><<-1,8736853,-42>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,11640832,-14>>,y|-><<1,12089985,-33>>,g|-><<-1,8712277,-42>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,12206080,-14>>,y|-><<1,11530114,-33>>,g|-><<-1,15848102,-43>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,13107200,-14>>,y|-><<1,10737418,-33>>,g|-><<-1,13743895,-43>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,16384000,-14>>,y|-><<1,8589935,-33>>,g|-><<-1,8796093,-43>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,8388608,-11>>,y|-><<1,8388608,-35>>,g|-><<-1,8388608,-47>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,10240000,-10>>,y|-><<1,13743895,-37>>,g|-><<-1,11258999,-50>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,8388608,-7>>,y|-><<1,8388608,-39>>,g|-><<-1,8388608,-55>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,16000000,-4>>,y|-><<1,8796093,-43>>,g|-><<-1,9223372,-63>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,15432099,3>>,y|-><<1,9119789,-50>>,g|-><<-1,9914703,-77>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,9765625,10>>,y|-><<1,14411519,-57>>,g|-><<-1,12379400,-90>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,14901161,26>>,y|-><<1,9444733,-73>>,g|-><<-1,10633824,-123>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,11368684,43>>,y|-><<1,12379400,-90>>,g|-><<-1,9134385,-156>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,13234890,76>>,y|-><<1,10633824,-123>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,14791142,104>>,y|-><<1,9514985,-151>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,8388608,-172>>,y|-><<1,-1,0>>,g|-><<-1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,8388608,-163>>,y|-><<1,-1,0>>,g|-><<-1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,8388608,-149>>,y|-><<1,8388608,103>>,g|-><<-1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,10633824,-123>>,y|-><<1,13234890,76>>,g|-><<-1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,12379400,-90>>,y|-><<1,11368684,43>>,g|-><<-1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->-4,x|-><<1,14411519,-57>>,y|-><<1,9765625,10>>,g|-><<-1,11368683,43>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,8388608,-63>>,y|-><<1,8388608,-3>>,g|-><<-1,8388608,36>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,8388608,-43>>,y|-><<1,8388608,-13>>,g|-><<-1,8388608,6>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,8589935,-33>>,y|-><<1,16579442,-19>>,g|-><<-1,16190860,-10>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,13421773,-27>>,y|-><<1,13263554,-22>>,g|-><<-1,16579442,-20>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,8388608,-25>>,y|-><<1,8388608,-22>>,g|-><<-1,8388608,-21>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,8388608,-24>>,y|-><<1,11863283,-23>>,g|-><<-1,11863283,-23>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,12582912,-24>>,y|-><<1,9686330,-23>>,g|-><<-1,12915107,-24>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<-1,8388608,-24>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,12582912,-23>>,y|-><<1,13698540,-24>>,g|-><<-1,9132360,-25>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,8388608,-22>>,y|-><<1,11863283,-24>>,g|-><<-1,11863283,-26>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,12582912,-22>>,y|-><<1,9686330,-24>>,g|-><<-1,12915107,-27>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,10485760,-21>>,y|-><<1,15005998,-25>>,g|-><<-1,12004799,-28>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,8388608,-20>>,y|-><<1,11863283,-25>>,g|-><<-1,11863283,-29>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,10485760,-20>>,y|-><<1,10610843,-25>>,g|-><<-1,8488674,-29>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,16252928,-20>>,y|-><<1,8522834,-25>>,g|-><<-1,8797764,-30>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,8650752,-19>>,y|-><<1,16521060,-26>>,g|-><<-1,16020422,-31>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,10485760,-19>>,y|-><<1,15005998,-26>>,g|-><<-1,12004799,-31>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,15728640,-19>>,y|-><<1,12252346,-26>>,g|-><<-1,13069169,-32>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,11272192,-18>>,y|-><<1,10234006,-26>>,g|-><<-1,15232009,-33>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,13107200,-18>>,y|-><<1,9490627,-26>>,g|-><<-1,12148002,-33>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,8388608,-17>>,y|-><<1,8388608,-26>>,g|-><<-1,8388608,-33>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,10485760,-17>>,y|-><<1,15005998,-27>>,g|-><<-1,12004799,-34>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,11403264,-17>>,y|-><<1,14389651,-27>>,g|-><<-1,10585490,-34>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,11599872,-17>>,y|-><<1,14267184,-27>>,g|-><<-1,10317511,-34>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,11730944,-17>>,y|-><<1,14187255,-27>>,g|-><<-1,10145076,-34>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,12451840,-17>>,y|-><<1,13770448,-27>>,g|-><<-1,9276934,-34>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,13107200,-17>>,y|-><<1,13421773,-27>>,g|-><<-1,8589935,-34>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,8388608,-16>>,y|-><<1,11863283,-27>>,g|-><<-1,11863283,-35>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,9830400,-16>>,y|-><<1,10958832,-27>>,g|-><<-1,9351536,-35>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,13107200,-16>>,y|-><<1,9490627,-27>>,g|-><<-1,12148002,-36>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,16384000,-15>>,y|-><<1,12004799,-28>>,g|-><<-1,12292914,-38>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,11624448,-14>>,y|-><<1,10077752,-28>>,g|-><<-1,14544917,-39>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,11640832,-14>>,y|-><<1,10070658,-28>>,g|-><<-1,14514220,-39>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,12206080,-14>>,y|-><<1,9834714,-28>>,g|-><<-1,13517782,-39>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,13107200,-14>>,y|-><<1,9490627,-28>>,g|-><<-1,12148002,-39>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,16384000,-14>>,y|-><<1,8488674,-28>>,g|-><<-1,8692403,-39>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,8388608,-11>>,y|-><<1,8388608,-29>>,g|-><<-1,8388608,-42>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,10240000,-10>>,y|-><<1,10737418,-30>>,g|-><<-1,8796093,-44>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,8388608,-7>>,y|-><<1,8388608,-31>>,g|-><<-1,8388608,-48>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,16000000,-4>>,y|-><<1,8589935,-33>>,g|-><<-1,9007199,-54>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,15432099,3>>,y|-><<1,12369506,-37>>,g|-><<-1,13447676,-65>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,9765625,10>>,y|-><<1,10995116,-40>>,g|-><<-1,9444733,-74>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,14901161,26>>,y|-><<1,8901020,-48>>,g|-><<-1,10021658,-99>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,11368684,43>>,y|-><<1,14411519,-57>>,g|-><<-1,10633824,-124>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,13234890,76>>,y|-><<1,9444733,-73>>,g|-><<-1,11972621,-174>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,14791142,104>>,y|-><<1,8934063,-87>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,8388608,-172>>,y|-><<1,11863283,51>>,g|-><<-1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,8388608,-163>>,y|-><<1,8388608,47>>,g|-><<-1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,8388608,-149>>,y|-><<1,8388608,40>>,g|-><<-1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,10633824,-123>>,y|-><<1,14901161,26>>,g|-><<-1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,12379400,-90>>,y|-><<1,9765625,10>>,g|-><<-1,13234890,75>>,w|->8,s|->0],
[f|->"powf",k|->-2,x|-><<1,14411519,-57>>,y|-><<1,12800000,-7>>,g|-><<-1,14901161,25>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,8388608,-63>>,y|-><<1,8388608,-33>>,g|-><<1,8388608,5>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,8388608,-43>>,y|-><<1,8388608,-28>>,g|-><<1,8388608,-10>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,8589935,-33>>,y|-><<1,11933831,-26>>,g|-><<1,11654132,-18>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,13421773,-27>>,y|-><<1,9434522,-24>>,g|-><<1,11793152,-23>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,8388608,-25>>,y|-><<1,11863283,-24>>,g|-><<1,11863283,-24>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,8388608,-24>>,y|-><<1,14107901,-24>>,g|-><<1,14107901,-25>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,12582912,-24>>,y|-><<1,15612959,-24>>,g|-><<1,10408639,-25>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-25>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,12582912,-23>>,y|-><<1,9283521,-23>>,g|-><<1,12378028,-26>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,8388608,-22>>,y|-><<1,9975792,-23>>,g|-><<1,9975792,-26>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,12582912,-22>>,y|-><<1,11040029,-23>>,g|-><<1,14720039,-27>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,10485760,-21>>,y|-><<1,12543895,-23>>,g|-><<1,10035116,-27>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,8388608,-20>>,y|-><<1,14107901,-23>>,g|-><<1,14107901,-28>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,10485760,-20>>,y|-><<1,14917289,-23>>,g|-><<1,11933831,-28>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,16252928,-20>>,y|-><<1,16644579,-23>>,g|-><<1,8590751,-28>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,8650752,-19>>,y|-><<1,8453390,-22>>,g|-><<1,16394453,-29>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,10485760,-19>>,y|-><<1,8869873,-22>>,g|-><<1,14191797,-29>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,15728640,-19>>,y|-><<1,9816128,-22>>,g|-><<1,10470537,-29>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,11272192,-18>>,y|-><<1,10740562,-22>>,g|-><<1,15985953,-30>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,13107200,-18>>,y|-><<1,11153275,-22>>,g|-><<1,14276192,-30>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,8388608,-17>>,y|-><<1,11863283,-22>>,g|-><<1,11863283,-30>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,10485760,-17>>,y|-><<1,12543895,-22>>,g|-><<1,10035116,-30>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,11403264,-17>>,y|-><<1,12809722,-22>>,g|-><<1,9423244,-30>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,11599872,-17>>,y|-><<1,12864583,-22>>,g|-><<1,9303201,-30>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,11730944,-17>>,y|-><<1,12900771,-22>>,g|-><<1,9225132,-30>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,12451840,-17>>,y|-><<1,13094557,-22>>,g|-><<1,8821596,-30>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,13107200,-17>>,y|-><<1,13263554,-22>>,g|-><<1,8488674,-30>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,8388608,-16>>,y|-><<1,14107901,-22>>,g|-><<1,14107901,-31>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,9830400,-16>>,y|-><<1,14678535,-22>>,g|-><<1,12525683,-31>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,13107200,-16>>,y|-><<1,15773113,-22>>,g|-><<1,10094792,-31>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,16384000,-15>>,y|-><<1,9916820,-21>>,g|-><<1,10154823,-32>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,11624448,-14>>,y|-><<1,10823507,-21>>,g|-><<1,15621242,-33>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,11640832,-14>>,y|-><<1,10827319,-21>>,g|-><<1,15604750,-33>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,12206080,-14>>,y|-><<1,10956428,-21>>,g|-><<1,15059573,-33>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,13107200,-14>>,y|-><<1,11153275,-21>>,g|-><<1,14276192,-33>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,16384000,-14>>,y|-><<1,11793152,-21>>,g|-><<1,12076188,-33>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,8388608,-11>>,y|-><<1,8388608,-20>>,g|-><<1,8388608,-34>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,10240000,-10>>,y|-><<1,10485760,-20>>,g|-><<1,8589935,-35>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,8388608,-7>>,y|-><<1,8388608,-19>>,g|-><<1,8388608,-37>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,16000000,-4>>,y|-><<1,16579442,-19>>,g|-><<1,8692403,-40>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,15432099,3>>,y|-><<1,13816202,-17>>,g|-><<1,15020472,-46>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,9765625,10>>,y|-><<1,10362151,-15>>,g|-><<1,8901020,-50>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,14901161,26>>,y|-><<1,11516750,-11>>,g|-><<1,12966708,-63>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,11368684,43>>,y|-><<1,12800000,-7>>,g|-><<1,9444733,-75>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,13234890,76>>,y|-><<1,15811388,1>>,g|-><<1,10021658,-100>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,14791142,104>>,y|-><<1,16256998,8>>,g|-><<1,9219950,-121>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,8388608,-172>>,y|-><<1,14107901,-61>>,g|-><<1,14107901,86>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,8388608,-163>>,y|-><<1,8388608,-58>>,g|-><<1,8388608,80>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,8388608,-149>>,y|-><<1,11863283,-55>>,g|-><<1,11863283,69>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,10633824,-123>>,y|-><<1,8901020,-48>>,g|-><<1,14043334,49>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,12379400,-90>>,y|-><<1,10995116,-40>>,g|-><<1,14901162,24>>,w|->8,s|->0],
[f|->"powf",k|->1,x|-><<1,14411519,-57>>,y|-><<1,13581879,-32>>,g|-><<1,15811388,-1>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,8388608,-63>>,y|-><<1,8388608,-43>>,g|-><<1,8388608,-4>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,8388608,-43>>,y|-><<1,8388608,-33>>,g|-><<1,8388608,-14>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,8589935,-33>>,y|-><<1,8488675,-28>>,g|-><<1,16579442,-20>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,13421773,-27>>,y|-><<1,10610843,-25>>,g|-><<1,13263554,-23>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,8388608,-25>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,8388608,-24>>,y|-><<1,11863283,-24>>,g|-><<1,11863283,-24>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,12582912,-24>>,y|-><<1,14529495,-24>>,g|-><<1,9686330,-24>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-24>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,12582912,-23>>,y|-><<1,10273905,-23>>,g|-><<1,13698540,-25>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,8388608,-22>>,y|-><<1,11863283,-23>>,g|-><<1,11863283,-25>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,12582912,-22>>,y|-><<1,14529495,-23>>,g|-><<1,9686330,-25>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,10485760,-21>>,y|-><<1,9378749,-22>>,g|-><<1,15005998,-26>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,8388608,-20>>,y|-><<1,11863283,-22>>,g|-><<1,11863283,-26>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,10485760,-20>>,y|-><<1,13263554,-22>>,g|-><<1,10610843,-26>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,16252928,-20>>,y|-><<1,16512991,-22>>,g|-><<1,8522834,-26>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,8650752,-19>>,y|-><<1,8518672,-21>>,g|-><<1,16521060,-27>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,10485760,-19>>,y|-><<1,9378749,-21>>,g|-><<1,15005998,-27>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,15728640,-19>>,y|-><<1,11486575,-21>>,g|-><<1,12252346,-27>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,11272192,-18>>,y|-><<1,13751945,-21>>,g|-><<1,10234006,-27>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,13107200,-18>>,y|-><<1,14829104,-21>>,g|-><<1,9490627,-27>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,8388608,-17>>,y|-><<1,8388608,-20>>,g|-><<1,8388608,-27>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,10485760,-17>>,y|-><<1,9378749,-20>>,g|-><<1,15005998,-28>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,11403264,-17>>,y|-><<1,9780466,-20>>,g|-><<1,14389651,-28>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,11599872,-17>>,y|-><<1,9864420,-20>>,g|-><<1,14267184,-28>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,11730944,-17>>,y|-><<1,9919994,-20>>,g|-><<1,14187255,-28>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,12451840,-17>>,y|-><<1,10220255,-20>>,g|-><<1,13770448,-28>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,13107200,-17>>,y|-><<1,10485760,-20>>,g|-><<1,13421773,-28>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,8388608,-16>>,y|-><<1,11863283,-20>>,g|-><<1,11863283,-28>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,9830400,-16>>,y|-><<1,12842381,-20>>,g|-><<1,10958832,-28>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,13107200,-16>>,y|-><<1,14829104,-20>>,g|-><<1,9490627,-28>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,16384000,-15>>,y|-><<1,11723436,-19>>,g|-><<1,12004799,-29>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,11624448,-14>>,y|-><<1,13965166,-19>>,g|-><<1,10077752,-29>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,11640832,-14>>,y|-><<1,13975005,-19>>,g|-><<1,10070658,-29>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,12206080,-14>>,y|-><<1,14310277,-19>>,g|-><<1,9834714,-29>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,13107200,-14>>,y|-><<1,14829104,-19>>,g|-><<1,9490627,-29>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,16384000,-14>>,y|-><<1,16579442,-19>>,g|-><<1,8488674,-29>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,8388608,-11>>,y|-><<1,8388608,-17>>,g|-><<1,8388608,-30>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,10240000,-10>>,y|-><<1,13107200,-17>>,g|-><<1,10737418,-31>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,8388608,-7>>,y|-><<1,8388608,-15>>,g|-><<1,8388608,-32>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,16000000,-4>>,y|-><<1,16384000,-14>>,g|-><<1,8589935,-34>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,15432099,3>>,y|-><<1,11377778,-10>>,g|-><<1,12369506,-38>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,9765625,10>>,y|-><<1,12800000,-7>>,g|-><<1,10995116,-41>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,14901161,26>>,y|-><<1,15811388,1>>,g|-><<1,8901020,-49>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,11368684,43>>,y|-><<1,9765625,10>>,g|-><<1,14411519,-58>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,13234890,76>>,y|-><<1,14901161,26>>,g|-><<1,9444733,-74>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,14791142,104>>,y|-><<1,15752910,40>>,g|-><<1,8934063,-88>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,8388608,-172>>,y|-><<1,11863283,-98>>,g|-><<1,11863283,50>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,8388608,-163>>,y|-><<1,8388608,-93>>,g|-><<1,8388608,46>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,8388608,-149>>,y|-><<1,8388608,-86>>,g|-><<1,8388608,39>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,10633824,-123>>,y|-><<1,9444733,-73>>,g|-><<1,14901161,25>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,12379400,-90>>,y|-><<1,14411519,-57>>,g|-><<1,9765625,9>>,w|->8,s|->0],
[f|->"powf",k|->2,x|-><<1,14411519,-57>>,y|-><<1,10995116,-40>>,g|-><<1,12800000,-8>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,8388608,-63>>,y|-><<1,8388608,-53>>,g|-><<1,12582912,-14>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,8388608,-43>>,y|-><<1,8388608,-38>>,g|-><<1,12582912,-19>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,8589935,-33>>,y|-><<1,12076188,-31>>,g|-><<1,8844864,-21>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,13421773,-27>>,y|-><<1,11933831,-26>>,g|-><<1,11187967,-23>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,8388608,-25>>,y|-><<1,11863283,-25>>,g|-><<1,8897462,-23>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,8388608,-24>>,y|-><<1,9975792,-24>>,g|-><<1,14963688,-24>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,12582912,-24>>,y|-><<1,13521219,-24>>,g|-><<1,13521219,-24>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,12582912,-24>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,12582912,-23>>,y|-><<1,11369944,-23>>,g|-><<1,11369944,-24>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,8388608,-22>>,y|-><<1,14107901,-23>>,g|-><<1,10580926,-24>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,12582912,-22>>,y|-><<1,9560946,-22>>,g|-><<1,9560946,-24>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,10485760,-21>>,y|-><<1,14024501,-22>>,g|-><<1,8414700,-24>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,8388608,-20>>,y|-><<1,9975792,-21>>,g|-><<1,14963688,-25>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,10485760,-20>>,y|-><<1,11793152,-21>>,g|-><<1,14151783,-25>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,16252928,-20>>,y|-><<1,16382444,-21>>,g|-><<1,12683182,-25>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,8650752,-19>>,y|-><<1,8584458,-20>>,g|-><<1,12486484,-25>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,10485760,-19>>,y|-><<1,9916820,-20>>,g|-><<1,11900183,-25>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,15728640,-19>>,y|-><<1,13441287,-20>>,g|-><<1,10753030,-25>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,11272192,-18>>,y|-><<1,8803822,-19>>,g|-><<1,9827522,-25>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,13107200,-18>>,y|-><<1,9858195,-19>>,g|-><<1,9463868,-25>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,8388608,-17>>,y|-><<1,11863283,-19>>,g|-><<1,8897462,-25>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,10485760,-17>>,y|-><<1,14024501,-19>>,g|-><<1,8414700,-25>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,11403264,-17>>,y|-><<1,14935142,-19>>,g|-><<1,16480157,-26>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,11599872,-17>>,y|-><<1,15127856,-19>>,g|-><<1,16409877,-26>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,11730944,-17>>,y|-><<1,15255878,-19>>,g|-><<1,16363846,-26>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,12451840,-17>>,y|-><<1,15953744,-19>>,g|-><<1,16121678,-26>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,13107200,-17>>,y|-><<1,16579442,-19>>,g|-><<1,15916265,-26>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,8388608,-16>>,y|-><<1,9975792,-18>>,g|-><<1,14963688,-26>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,9830400,-16>>,y|-><<1,11235913,-18>>,g|-><<1,14381969,-26>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,13107200,-16>>,y|-><<1,13941594,-18>>,g|-><<1,13383930,-26>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,16384000,-15>>,y|-><<1,13859177,-17>>,g|-><<1,10643848,-26>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,11624448,-14>>,y|-><<1,9009366,-16>>,g|-><<1,9752210,-26>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,11640832,-14>>,y|-><<1,9018888,-16>>,g|-><<1,9748777,-26>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,12206080,-14>>,y|-><<1,9345384,-16>>,g|-><<1,9633899,-26>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,13107200,-14>>,y|-><<1,9858195,-16>>,g|-><<1,9463868,-26>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,16384000,-14>>,y|-><<1,11654132,-16>>,g|-><<1,8950373,-26>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,8388608,-11>>,y|-><<1,8388608,-14>>,g|-><<1,12582912,-27>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,10240000,-10>>,y|-><<1,16384000,-14>>,g|-><<1,10066330,-27>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,8388608,-7>>,y|-><<1,8388608,-11>>,g|-><<1,12582912,-28>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,16000000,-4>>,y|-><<1,16190862,-9>>,g|-><<1,12733012,-29>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,15432099,3>>,y|-><<1,9369712,-3>>,g|-><<1,15279614,-31>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,9765625,10>>,y|-><<1,15811388,1>>,g|-><<1,10186409,-32>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,14901161,26>>,y|-><<1,10853756,14>>,g|-><<1,9165182,-36>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,11368684,43>>,y|-><<1,14901161,26>>,g|-><<1,16492674,-41>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,13234890,76>>,y|-><<1,14043334,51>>,g|-><<1,13351530,-49>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,14791142,104>>,y|-><<1,15264453,72>>,g|-><<1,12985561,-56>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,8388608,-172>>,y|-><<1,9975792,-135>>,g|-><<1,14963688,13>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,8388608,-163>>,y|-><<1,8388608,-128>>,g|-><<1,12582912,11>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,8388608,-149>>,y|-><<1,11863283,-118>>,g|-><<1,8897462,8>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,10633824,-123>>,y|-><<1,10021658,-98>>,g|-><<1,11858541,1>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,12379400,-90>>,y|-><<1,9444733,-73>>,g|-><<1,9600000,-7>>,w|->8,s|->0],
[f|->"powf",k|->3,x|-><<1,14411519,-57>>,y|-><<1,8901020,-48>>,g|-><<1,15543227,-16>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,8388608,-63>>,y|-><<1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,8388608,-43>>,y|-><<1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,8589935,-33>>,y|-><<1,8589935,-33>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,13421773,-27>>,y|-><<1,13421773,-27>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,8388608,-25>>,y|-><<1,8388608,-25>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,8388608,-24>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,12582912,-24>>,y|-><<1,12582912,-24>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,12582912,-23>>,y|-><<1,12582912,-23>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,8388608,-22>>,y|-><<1,8388608,-22>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,12582912,-22>>,y|-><<1,12582912,-22>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,10485760,-21>>,y|-><<1,10485760,-21>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,8388608,-20>>,y|-><<1,8388608,-20>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,10485760,-20>>,y|-><<1,10485760,-20>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,16252928,-20>>,y|-><<1,16252928,-20>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,8650752,-19>>,y|-><<1,8650752,-19>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,10485760,-19>>,y|-><<1,10485760,-19>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,15728640,-19>>,y|-><<1,15728640,-19>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,11272192,-18>>,y|-><<1,11272192,-18>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,13107200,-18>>,y|-><<1,13107200,-18>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,8388608,-17>>,y|-><<1,8388608,-17>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,10485760,-17>>,y|-><<1,10485760,-17>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,11403264,-17>>,y|-><<1,11403264,-17>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,11599872,-17>>,y|-><<1,11599872,-17>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,11730944,-17>>,y|-><<1,11730944,-17>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,12451840,-17>>,y|-><<1,12451840,-17>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,13107200,-17>>,y|-><<1,13107200,-17>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,8388608,-16>>,y|-><<1,8388608,-16>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,9830400,-16>>,y|-><<1,9830400,-16>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,13107200,-16>>,y|-><<1,13107200,-16>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,16384000,-15>>,y|-><<1,16384000,-15>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,11624448,-14>>,y|-><<1,11624448,-14>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,11640832,-14>>,y|-><<1,11640832,-14>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,12206080,-14>>,y|-><<1,12206080,-14>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,13107200,-14>>,y|-><<1,13107200,-14>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,16384000,-14>>,y|-><<1,16384000,-14>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,8388608,-11>>,y|-><<1,8388608,-11>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,10240000,-10>>,y|-><<1,10240000,-10>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,8388608,-7>>,y|-><<1,8388608,-7>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,16000000,-4>>,y|-><<1,16000000,-4>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,15432099,3>>,y|-><<1,15432099,3>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,9765625,10>>,y|-><<1,9765625,10>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,14901161,26>>,y|-><<1,14901161,26>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,11368684,43>>,y|-><<1,11368684,43>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,13234890,76>>,y|-><<1,13234890,76>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,14791142,104>>,y|-><<1,14791142,104>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,8388608,-172>>,y|-><<1,8388608,-172>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,8388608,-163>>,y|-><<1,8388608,-163>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,8388608,-149>>,y|-><<1,8388608,-149>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,10633824,-123>>,y|-><<1,10633824,-123>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,12379400,-90>>,y|-><<1,12379400,-90>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->4,x|-><<1,14411519,-57>>,y|-><<1,14411519,-57>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,8388608,-63>>,y|-><<1,8388608,-83>>,g|-><<1,12582912,-43>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,8388608,-43>>,y|-><<1,8388608,-53>>,g|-><<1,12582912,-33>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,8589935,-33>>,y|-><<1,8692403,-38>>,g|-><<1,12733012,-28>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,13421773,-27>>,y|-><<1,8488675,-28>>,g|-><<1,15916265,-25>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,8388608,-25>>,y|-><<1,8388608,-26>>,g|-><<1,12582912,-24>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,8388608,-24>>,y|-><<1,11863283,-25>>,g|-><<1,8897462,-23>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,12582912,-24>>,y|-><<1,10897121,-24>>,g|-><<1,10897121,-23>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,12582912,-23>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,12582912,-23>>,y|-><<1,15410857,-23>>,g|-><<1,15410857,-23>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,8388608,-22>>,y|-><<1,11863283,-22>>,g|-><<1,8897462,-22>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,12582912,-22>>,y|-><<1,10897121,-21>>,g|-><<1,10897121,-22>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,10485760,-21>>,y|-><<1,11723436,-20>>,g|-><<1,14068123,-22>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,8388608,-20>>,y|-><<1,11863283,-19>>,g|-><<1,8897462,-21>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,10485760,-20>>,y|-><<1,16579442,-19>>,g|-><<1,9947665,-21>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,16252928,-20>>,y|-><<1,15996960,-18>>,g|-><<1,12384744,-21>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,8650752,-19>>,y|-><<1,8784880,-17>>,g|-><<1,12778008,-21>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,10485760,-19>>,y|-><<1,11723436,-17>>,g|-><<1,14068123,-21>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,15728640,-19>>,y|-><<1,10768664,-16>>,g|-><<1,8614931,-20>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,11272192,-18>>,y|-><<1,9239588,-15>>,g|-><<1,10313959,-20>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,13107200,-18>>,y|-><<1,11585238,-15>>,g|-><<1,11121828,-20>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,8388608,-17>>,y|-><<1,8388608,-14>>,g|-><<1,12582912,-20>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,10485760,-17>>,y|-><<1,11723436,-14>>,g|-><<1,14068123,-20>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,11403264,-17>>,y|-><<1,13295321,-14>>,g|-><<1,14670699,-20>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,11599872,-17>>,y|-><<1,13640643,-14>>,g|-><<1,14796630,-20>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,11730944,-17>>,y|-><<1,13872492,-14>>,g|-><<1,14879992,-20>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,12451840,-17>>,y|-><<1,15170690,-14>>,g|-><<1,15330382,-20>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,13107200,-17>>,y|-><<1,16384000,-14>>,g|-><<1,15728640,-20>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,8388608,-16>>,y|-><<1,11863283,-13>>,g|-><<1,8897462,-19>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,9830400,-16>>,y|-><<1,15049665,-13>>,g|-><<1,9631786,-19>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,13107200,-16>>,y|-><<1,11585238,-12>>,g|-><<1,11121828,-19>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,16384000,-15>>,y|-><<1,11448668,-10>>,g|-><<1,8792577,-18>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,11624448,-14>>,y|-><<1,9676060,-9>>,g|-><<1,10473875,-18>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,11640832,-14>>,y|-><<1,9696524,-9>>,g|-><<1,10481253,-18>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,12206080,-14>>,y|-><<1,10411286,-9>>,g|-><<1,10732708,-18>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,13107200,-14>>,y|-><<1,11585238,-9>>,g|-><<1,11121828,-18>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,16384000,-14>>,y|-><<1,16190862,-9>>,g|-><<1,12434582,-18>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,8388608,-11>>,y|-><<1,8388608,-5>>,g|-><<1,12582912,-17>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,10240000,-10>>,y|-><<1,16000000,-4>>,g|-><<1,9830400,-16>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,8388608,-7>>,y|-><<1,8388608,1>>,g|-><<1,12582912,-15>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,16000000,-4>>,y|-><<1,15625000,6>>,g|-><<1,12288000,-13>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,15432099,3>>,y|-><<1,10465562,17>>,g|-><<1,8533333,-9>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,9765625,10>>,y|-><<1,14901161,26>>,g|-><<1,9600000,-6>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,14901161,26>>,y|-><<1,14043334,51>>,g|-><<1,11858541,2>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,11368684,43>>,y|-><<1,13234890,76>>,g|-><<1,14648438,10>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,13234890,76>>,y|-><<1,-1,0>>,g|-><<1,11175871,27>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,14791142,104>>,y|-><<1,-1,0>>,g|-><<1,11814683,41>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,8388608,-172>>,y|-><<0,0,0>>,g|-><<1,8897462,-97>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,8388608,-163>>,y|-><<0,0,0>>,g|-><<1,12582912,-93>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,8388608,-149>>,y|-><<0,0,0>>,g|-><<1,12582912,-86>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,10633824,-123>>,y|-><<1,11972621,-173>>,g|-><<1,14167099,-73>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,12379400,-90>>,y|-><<1,10633823,-123>>,g|-><<1,10808639,-56>>,w|->8,s|->0],
[f|->"powf",k|->6,x|-><<1,14411519,-57>>,y|-><<1,9444733,-73>>,g|-><<1,16492675,-40>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,8388608,-63>>,y|-><<1,8388608,-103>>,g|-><<1,8388608,-62>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,8388608,-43>>,y|-><<1,8388608,-63>>,g|-><<1,8388608,-42>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,8589935,-33>>,y|-><<1,8796094,-43>>,g|-><<1,8589935,-32>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,13421773,-27>>,y|-><<1,10737419,-30>>,g|-><<1,13421773,-26>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,8388608,-25>>,y|-><<1,8388608,-27>>,g|-><<1,8388608,-24>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,8388608,-24>>,y|-><<1,8388608,-25>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,12582912,-24>>,y|-><<1,9437184,-24>>,g|-><<1,12582912,-23>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-22>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,12582912,-23>>,y|-><<1,9437184,-22>>,g|-><<1,12582912,-22>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,8388608,-22>>,y|-><<1,8388608,-21>>,g|-><<1,8388608,-21>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,12582912,-22>>,y|-><<1,9437184,-20>>,g|-><<1,12582912,-21>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,10485760,-21>>,y|-><<1,13107200,-19>>,g|-><<1,10485760,-20>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,8388608,-20>>,y|-><<1,8388608,-17>>,g|-><<1,8388608,-19>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,10485760,-20>>,y|-><<1,13107200,-17>>,g|-><<1,10485760,-19>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,16252928,-20>>,y|-><<1,15745024,-16>>,g|-><<1,16252928,-19>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,8650752,-19>>,y|-><<1,8921088,-15>>,g|-><<1,8650752,-18>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,10485760,-19>>,y|-><<1,13107200,-15>>,g|-><<1,10485760,-18>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,15728640,-19>>,y|-><<1,14745600,-14>>,g|-><<1,15728640,-18>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,11272192,-18>>,y|-><<1,15147008,-13>>,g|-><<1,11272192,-17>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,13107200,-18>>,y|-><<1,10240000,-12>>,g|-><<1,13107200,-17>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,8388608,-17>>,y|-><<1,8388608,-11>>,g|-><<1,8388608,-16>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,10485760,-17>>,y|-><<1,13107200,-11>>,g|-><<1,10485760,-16>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,11403264,-17>>,y|-><<1,15501312,-11>>,g|-><<1,11403264,-16>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,11599872,-17>>,y|-><<1,16040448,-11>>,g|-><<1,11599872,-16>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,11730944,-17>>,y|-><<1,16404992,-11>>,g|-><<1,11730944,-16>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,12451840,-17>>,y|-><<1,9241600,-10>>,g|-><<1,12451840,-16>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,13107200,-17>>,y|-><<1,10240000,-10>>,g|-><<1,13107200,-16>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,8388608,-16>>,y|-><<1,8388608,-9>>,g|-><<1,8388608,-15>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,9830400,-16>>,y|-><<1,11520000,-9>>,g|-><<1,9830400,-15>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,13107200,-16>>,y|-><<1,10240000,-8>>,g|-><<1,13107200,-15>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,16384000,-15>>,y|-><<1,16000000,-6>>,g|-><<1,16384000,-14>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,11624448,-14>>,y|-><<1,16108488,-5>>,g|-><<1,11624448,-13>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,11640832,-14>>,y|-><<1,16153928,-5>>,g|-><<1,11640832,-13>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,12206080,-14>>,y|-><<1,8880400,-4>>,g|-><<1,12206080,-13>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,13107200,-14>>,y|-><<1,10240000,-4>>,g|-><<1,13107200,-13>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,16384000,-14>>,y|-><<1,16000000,-4>>,g|-><<1,16384000,-13>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,8388608,-11>>,y|-><<1,8388608,1>>,g|-><<1,8388608,-10>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,10240000,-10>>,y|-><<1,12500000,3>>,g|-><<1,10240000,-9>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,8388608,-7>>,y|-><<1,8388608,9>>,g|-><<1,8388608,-6>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,16000000,-4>>,y|-><<1,15258789,16>>,g|-><<1,16000000,-3>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,15432099,3>>,y|-><<1,14194827,30>>,g|-><<1,15432099,4>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,9765625,10>>,y|-><<1,11368684,43>>,g|-><<1,9765625,11>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,14901161,26>>,y|-><<1,13234889,76>>,g|-><<1,14901161,27>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,11368684,43>>,y|-><<1,-1,0>>,g|-><<1,11368684,44>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,13234890,76>>,y|-><<1,-1,0>>,g|-><<1,13234890,77>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,14791142,104>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,8388608,-172>>,y|-><<0,0,0>>,g|-><<1,8388608,-171>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,8388608,-163>>,y|-><<0,0,0>>,g|-><<1,8388608,-162>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,8388608,-149>>,y|-><<0,0,0>>,g|-><<1,8388608,-148>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,10633824,-123>>,y|-><<0,0,0>>,g|-><<1,10633824,-122>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,12379400,-90>>,y|-><<1,9134385,-156>>,g|-><<1,12379400,-89>>,w|->8,s|->0],
[f|->"powf",k|->8,x|-><<1,14411519,-57>>,y|-><<1,12379401,-90>>,g|-><<1,14411519,-56>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,8388608,-63>>,y|-><<1,8388608,-143>>,g|-><<1,12582912,-102>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,8388608,-43>>,y|-><<1,8388608,-83>>,g|-><<1,12582912,-62>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,8589935,-33>>,y|-><<1,9007201,-53>>,g|-><<1,13194141,-42>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,13421773,-27>>,y|-><<1,8589935,-33>>,g|-><<1,16106128,-29>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,8388608,-25>>,y|-><<1,8388608,-29>>,g|-><<1,12582912,-26>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,8388608,-24>>,y|-><<1,8388608,-26>>,g|-><<1,12582912,-24>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,12582912,-24>>,y|-><<1,14155776,-25>>,g|-><<1,14155776,-23>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,12582912,-22>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,12582912,-23>>,y|-><<1,14155776,-22>>,g|-><<1,14155776,-21>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,8388608,-22>>,y|-><<1,8388608,-20>>,g|-><<1,12582912,-20>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,12582912,-22>>,y|-><<1,14155776,-19>>,g|-><<1,14155776,-19>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,10485760,-21>>,y|-><<1,16384000,-17>>,g|-><<1,9830400,-17>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,8388608,-20>>,y|-><<1,8388608,-14>>,g|-><<1,12582912,-16>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,10485760,-20>>,y|-><<1,16384000,-14>>,g|-><<1,9830400,-15>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,16252928,-20>>,y|-><<1,15252992,-12>>,g|-><<1,11808768,-14>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,8650752,-19>>,y|-><<1,9199872,-11>>,g|-><<1,13381632,-14>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,10485760,-19>>,y|-><<1,16384000,-11>>,g|-><<1,9830400,-13>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,15728640,-19>>,y|-><<1,13824000,-9>>,g|-><<1,11059200,-12>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,11272192,-18>>,y|-><<1,10176896,-7>>,g|-><<1,11360256,-11>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,13107200,-18>>,y|-><<1,16000000,-7>>,g|-><<1,15360000,-11>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,8388608,-17>>,y|-><<1,8388608,-5>>,g|-><<1,12582912,-10>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,10485760,-17>>,y|-><<1,16384000,-5>>,g|-><<1,9830400,-9>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,11403264,-17>>,y|-><<1,10536048,-4>>,g|-><<1,11625984,-9>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,11599872,-17>>,y|-><<1,11090466,-4>>,g|-><<1,12030336,-9>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,11730944,-17>>,y|-><<1,11470678,-4>>,g|-><<1,12303744,-9>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,12451840,-17>>,y|-><<1,13718000,-4>>,g|-><<1,13862400,-9>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,13107200,-17>>,y|-><<1,16000000,-4>>,g|-><<1,15360000,-9>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,8388608,-16>>,y|-><<1,8388608,-2>>,g|-><<1,12582912,-8>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,9830400,-16>>,y|-><<1,13500000,-2>>,g|-><<1,8640000,-7>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,13107200,-16>>,y|-><<1,16000000,-1>>,g|-><<1,15360000,-7>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,16384000,-15>>,y|-><<1,15625000,3>>,g|-><<1,12000000,-4>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,11624448,-14>>,y|-><<1,11161106,5>>,g|-><<1,12081366,-3>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,11640832,-14>>,y|-><<1,11208365,5>>,g|-><<1,12115446,-3>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,12206080,-14>>,y|-><<1,12921676,5>>,g|-><<1,13320600,-3>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,13107200,-14>>,y|-><<1,16000000,5>>,g|-><<1,15360000,-3>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,16384000,-14>>,y|-><<1,15625000,6>>,g|-><<1,12000000,-2>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,8388608,-11>>,y|-><<1,8388608,13>>,g|-><<1,12582912,2>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,10240000,-10>>,y|-><<1,15258789,16>>,g|-><<1,9375000,5>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,8388608,-7>>,y|-><<1,8388608,25>>,g|-><<1,12582912,10>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,16000000,-4>>,y|-><<1,14551915,36>>,g|-><<1,11444092,18>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,15432099,3>>,y|-><<1,13056754,57>>,g|-><<1,10646120,32>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,9765625,10>>,y|-><<1,13234890,76>>,g|-><<1,8526513,45>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,14901161,26>>,y|-><<1,-1,0>>,g|-><<1,9926167,78>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,11368684,43>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,13234890,76>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,14791142,104>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,8388608,-172>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,8388608,-163>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,8388608,-149>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,10633824,-123>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,12379400,-90>>,y|-><<0,0,0>>,g|-><<1,13701577,-155>>,w|->8,s|->0],
[f|->"powf",k|->12,x|-><<1,14411519,-57>>,y|-><<1,10633824,-123>>,g|-><<1,9284551,-88>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,8388608,-63>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,8388608,-43>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,8589935,-33>>,y|-><<1,10633829,-123>>,g|-><<1,12980748,-110>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,13421773,-27>>,y|-><<1,14411521,-57>>,g|-><<1,11259001,-50>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,8388608,-25>>,y|-><<1,8388608,-43>>,g|-><<1,10485760,-38>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,8388608,-24>>,y|-><<1,8388608,-33>>,g|-><<1,10485760,-29>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,12582912,-24>>,y|-><<1,15116544,-28>>,g|-><<1,12597120,-24>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,10485760,-20>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,12582912,-23>>,y|-><<1,15116544,-18>>,g|-><<1,12597120,-15>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,8388608,-22>>,y|-><<1,8388608,-13>>,g|-><<1,10485760,-11>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,12582912,-22>>,y|-><<1,15116544,-8>>,g|-><<1,12597120,-6>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,10485760,-21>>,y|-><<1,9765625,0>>,g|-><<1,9765625,1>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,8388608,-20>>,y|-><<1,8388608,7>>,g|-><<1,10485760,7>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,10485760,-20>>,y|-><<1,9765625,10>>,g|-><<1,9765625,10>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,16252928,-20>>,y|-><<1,12213413,16>>,g|-><<1,15759243,15>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,8650752,-19>>,y|-><<1,11411153,17>>,g|-><<1,13831700,16>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,10485760,-19>>,y|-><<1,9765625,20>>,g|-><<1,9765625,19>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,15728640,-19>>,y|-><<1,8798987,26>>,g|-><<1,11731982,24>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,11272192,-18>>,y|-><<1,10063631,31>>,g|-><<1,9361517,29>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,13107200,-18>>,y|-><<1,11368684,33>>,g|-><<1,9094947,31>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,8388608,-17>>,y|-><<1,8388608,37>>,g|-><<1,10485760,34>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,10485760,-17>>,y|-><<1,9765625,40>>,g|-><<1,9765625,37>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,11403264,-17>>,y|-><<1,11296989,41>>,g|-><<1,10388036,38>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,11599872,-17>>,y|-><<1,13403027,41>>,g|-><<1,12115730,38>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,11730944,-17>>,y|-><<1,14996867,41>>,g|-><<1,13405021,38>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,12451840,-17>>,y|-><<1,13613702,42>>,g|-><<1,11464170,39>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,13107200,-17>>,y|-><<1,11368684,43>>,g|-><<1,9094947,40>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,8388608,-16>>,y|-><<1,8388608,47>>,g|-><<1,10485760,43>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,9830400,-16>>,y|-><<1,10243369,49>>,g|-><<1,10926260,45>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,13107200,-16>>,y|-><<1,11368684,53>>,g|-><<1,9094947,49>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,16384000,-15>>,y|-><<1,13234890,66>>,g|-><<1,8470329,61>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,11624448,-14>>,y|-><<1,13689712,71>>,g|-><<1,12348718,65>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,11640832,-14>>,y|-><<1,13883889,71>>,g|-><<1,12506248,65>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,12206080,-14>>,y|-><<1,11153291,72>>,g|-><<1,9581351,66>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,13107200,-14>>,y|-><<1,11368684,73>>,g|-><<1,9094947,67>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,16384000,-14>>,y|-><<1,13234890,76>>,g|-><<1,8470329,70>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,8388608,-11>>,y|-><<1,8388608,97>>,g|-><<1,10485760,88>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,10240000,-10>>,y|-><<1,-1,0>>,g|-><<1,15777218,99>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,8388608,-7>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,16000000,-4>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,15432099,3>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,9765625,10>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,14901161,26>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,11368684,43>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,13234890,76>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,14791142,104>>,y|-><<1,-1,0>>,g|-><<1,-1,0>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,8388608,-172>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,8388608,-163>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,8388608,-149>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,10633824,-123>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,12379400,-90>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powf",k|->40,x|-><<1,14411519,-57>>,y|-><<0,0,0>>,g|-><<0,0,0>>,w|->8,s|->0],
[f|->"powi",k|->-40,x|-><<-1,10485760,-21>>,y|-><<1,9134385,-116>>,g|-><<1,9134385,-113>>,w|->84,s|->0],
[f|->"powi",k|->-40,x|-><<-1,12582912,-22>>,y|-><<1,12727979,-87>>,g|-><<1,10606649,-83>>,w|->84,s|->0],
[f|->"powi",k|->-40,x|-><<-1,8388608,-22>>,y|-><<1,8388608,-63>>,g|-><<1,10485760,-59>>,w|->84,s|->0],
[f|->"powi",k|->-40,x|-><<-1,12582912,-23>>,y|-><<1,12727979,-47>>,g|-><<1,10606649,-42>>,w|->84,s|->0],
[f|->"powi",k|->-40,x|-><<-1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,10485760,-18>>,w|->84,s|->0],
[f|->"powi",k|->-40,x|-><<-1,12582912,-24>>,y|-><<1,12727979,-7>>,g|-><<1,10606649,-1>>,w|->84,s|->0],
[f|->"powi",k|->-40,x|-><<-1,8388608,-24>>,y|-><<1,8388608,17>>,g|-><<1,10485760,23>>,w|->84,s|->0],
[f|->"powi",k|->-40,x|-><<-1,8388608,-25>>,y|-><<1,8388608,57>>,g|-><<1,10485760,64>>,w|->84,s|->0],
[f|->"powi",k|->-40,x|-><<1,8388608,-25>>,y|-><<1,8388608,57>>,g|-><<-1,10485760,64>>,w|->84,s|->0],
[f|->"powi",k|->-40,x|-><<1,8388608,-24>>,y|-><<1,8388608,17>>,g|-><<-1,10485760,23>>,w|->84,s|->0],
[f|->"powi",k|->-40,x|-><<1,12582912,-24>>,y|-><<1,12727979,-7>>,g|-><<-1,10606649,-1>>,w|->84,s|->0],
[f|->"powi",k|->-40,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<-1,10485760,-18>>,w|->84,s|->0],
[f|->"powi",k|->-40,x|-><<1,12582912,-23>>,y|-><<1,12727979,-47>>,g|-><<-1,10606649,-42>>,w|->84,s|->0],
[f|->"powi",k|->-40,x|-><<1,8388608,-22>>,y|-><<1,8388608,-63>>,g|-><<-1,10485760,-59>>,w|->84,s|->0],
[f|->"powi",k|->-40,x|-><<1,12582912,-22>>,y|-><<1,12727979,-87>>,g|-><<-1,10606649,-83>>,w|->84,s|->0],
[f|->"powi",k|->-40,x|-><<1,10485760,-21>>,y|-><<1,9134385,-116>>,g|-><<-1,9134385,-113>>,w|->84,s|->0],
[f|->"powi",k|->-7,x|-><<-1,10240000,-10>>,y|-><<-1,16615350,-117>>,g|-><<-1,11909883,-127>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,8388608,-11>>,y|-><<-1,8388608,-107>>,g|-><<-1,14680064,-117>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,16384000,-14>>,y|-><<-1,9903520,-93>>,g|-><<-1,8873554,-100>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,13107200,-14>>,y|-><<-1,11805916,-91>>,g|-><<-1,13222626,-98>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,12206080,-14>>,y|-><<-1,9718645,-90>>,g|-><<-1,11688464,-97>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,11640832,-14>>,y|-><<-1,13544128,-90>>,g|-><<-1,8540140,-96>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,11624448,-14>>,y|-><<-1,13678322,-90>>,g|-><<-1,8636911,-96>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,16384000,-15>>,y|-><<-1,9903520,-86>>,g|-><<-1,8873554,-92>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,13107200,-16>>,y|-><<-1,11805916,-77>>,g|-><<-1,13222626,-82>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,9830400,-16>>,y|-><<-1,11055563,-74>>,g|-><<-1,16509641,-79>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,8388608,-16>>,y|-><<-1,8388608,-72>>,g|-><<-1,14680064,-77>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,13107200,-17>>,y|-><<-1,11805916,-70>>,g|-><<-1,13222626,-74>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,12451840,-17>>,y|-><<-1,8452875,-69>>,g|-><<-1,9965495,-73>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,11730944,-17>>,y|-><<-1,12832417,-69>>,g|-><<-1,16058443,-73>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,11599872,-17>>,y|-><<-1,13882472,-69>>,g|-><<-1,8784389,-72>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,11403264,-17>>,y|-><<-1,15647139,-69>>,g|-><<-1,10071721,-72>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,10485760,-17>>,y|-><<-1,14073749,-68>>,g|-><<-1,9851624,-71>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,8388608,-17>>,y|-><<-1,8388608,-65>>,g|-><<-1,14680064,-69>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,13107200,-18>>,y|-><<-1,11805916,-63>>,g|-><<-1,13222626,-66>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,11272192,-18>>,y|-><<-1,8483021,-61>>,g|-><<-1,11047655,-64>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,15728640,-19>>,y|-><<-1,13179258,-58>>,g|-><<-1,12300641,-60>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,10485760,-19>>,y|-><<-1,14073749,-54>>,g|-><<-1,9851624,-55>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,8650752,-19>>,y|-><<-1,13526087,-52>>,g|-><<-1,11476680,-53>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,16252928,-20>>,y|-><<-1,10476299,-51>>,g|-><<-1,9462464,-52>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,10485760,-20>>,y|-><<-1,14073749,-47>>,g|-><<-1,9851624,-47>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,8388608,-20>>,y|-><<-1,8388608,-44>>,g|-><<-1,14680064,-45>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,10485760,-21>>,y|-><<-1,14073749,-40>>,g|-><<-1,9851624,-39>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,12582912,-22>>,y|-><<-1,15710900,-35>>,g|-><<-1,9164692,-33>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,8388608,-22>>,y|-><<-1,8388608,-30>>,g|-><<-1,14680064,-29>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,12582912,-23>>,y|-><<-1,15710900,-28>>,g|-><<-1,9164692,-25>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,8388608,-23>>,y|-><<-1,8388608,-23>>,g|-><<-1,14680064,-21>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,12582912,-24>>,y|-><<-1,15710900,-21>>,g|-><<-1,9164692,-17>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,8388608,-24>>,y|-><<-1,8388608,-16>>,g|-><<-1,14680064,-13>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,8388608,-25>>,y|-><<-1,8388608,-9>>,g|-><<-1,14680064,-5>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,13421773,-27>>,y|-><<-1,9999999,0>>,g|-><<-1,10937499,6>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<-1,8589935,-33>>,y|-><<-1,14210850,46>>,g|-><<-1,12143060,59>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,8589935,-33>>,y|-><<1,14210850,46>>,g|-><<-1,12143060,59>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,13421773,-27>>,y|-><<1,9999999,0>>,g|-><<-1,10937499,6>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,8388608,-25>>,y|-><<1,8388608,-9>>,g|-><<-1,14680064,-5>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,8388608,-24>>,y|-><<1,8388608,-16>>,g|-><<-1,14680064,-13>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,12582912,-24>>,y|-><<1,15710900,-21>>,g|-><<-1,9164692,-17>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<-1,14680064,-21>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,12582912,-23>>,y|-><<1,15710900,-28>>,g|-><<-1,9164692,-25>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,8388608,-22>>,y|-><<1,8388608,-30>>,g|-><<-1,14680064,-29>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,12582912,-22>>,y|-><<1,15710900,-35>>,g|-><<-1,9164692,-33>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,10485760,-21>>,y|-><<1,14073749,-40>>,g|-><<-1,9851624,-39>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,8388608,-20>>,y|-><<1,8388608,-44>>,g|-><<-1,14680064,-45>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,10485760,-20>>,y|-><<1,14073749,-47>>,g|-><<-1,9851624,-47>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,16252928,-20>>,y|-><<1,10476299,-51>>,g|-><<-1,9462464,-52>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,8650752,-19>>,y|-><<1,13526087,-52>>,g|-><<-1,11476680,-53>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,10485760,-19>>,y|-><<1,14073749,-54>>,g|-><<-1,9851624,-55>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,15728640,-19>>,y|-><<1,13179258,-58>>,g|-><<-1,12300641,-60>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,11272192,-18>>,y|-><<1,8483021,-61>>,g|-><<-1,11047655,-64>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,13107200,-18>>,y|-><<1,11805916,-63>>,g|-><<-1,13222626,-66>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,8388608,-17>>,y|-><<1,8388608,-65>>,g|-><<-1,14680064,-69>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,10485760,-17>>,y|-><<1,14073749,-68>>,g|-><<-1,9851624,-71>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,11403264,-17>>,y|-><<1,15647139,-69>>,g|-><<-1,10071721,-72>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,11599872,-17>>,y|-><<1,13882472,-69>>,g|-><<-1,8784389,-72>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,11730944,-17>>,y|-><<1,12832417,-69>>,g|-><<-1,16058443,-73>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,12451840,-17>>,y|-><<1,8452875,-69>>,g|-><<-1,9965495,-73>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,13107200,-17>>,y|-><<1,11805916,-70>>,g|-><<-1,13222626,-74>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,8388608,-16>>,y|-><<1,8388608,-72>>,g|-><<-1,14680064,-77>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,9830400,-16>>,y|-><<1,11055563,-74>>,g|-><<-1,16509641,-79>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,13107200,-16>>,y|-><<1,11805916,-77>>,g|-><<-1,13222626,-82>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,16384000,-15>>,y|-><<1,9903520,-86>>,g|-><<-1,8873554,-92>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,11624448,-14>>,y|-><<1,13678322,-90>>,g|-><<-1,8636911,-96>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,11640832,-14>>,y|-><<1,13544128,-90>>,g|-><<-1,8540140,-96>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,12206080,-14>>,y|-><<1,9718645,-90>>,g|-><<-1,11688464,-97>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,13107200,-14>>,y|-><<1,11805916,-91>>,g|-><<-1,13222626,-98>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,16384000,-14>>,y|-><<1,9903520,-93>>,g|-><<-1,8873554,-100>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,8388608,-11>>,y|-><<1,8388608,-107>>,g|-><<-1,14680064,-117>>,w|->18,s|->0],
[f|->"powi",k|->-7,x|-><<1,10240000,-10>>,y|-><<1,16615350,-117>>,g|-><<-1,11909883,-127>>,w|->18,s|->0],
[f|->"powi",k|->-3,x|-><<-1,15432099,3>>,y|-><<-1,10778904,-104>>,g|-><<-1,8788824,-129>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,16000000,-4>>,y|-><<-1,9671407,-83>>,g|-><<-1,15211807,-102>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,8388608,-7>>,y|-><<-1,8388608,-71>>,g|-><<-1,12582912,-86>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,10240000,-10>>,y|-><<-1,9223372,-63>>,g|-><<-1,11333680,-75>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,8388608,-11>>,y|-><<-1,8388608,-59>>,g|-><<-1,12582912,-70>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,16384000,-14>>,y|-><<-1,9007199,-53>>,g|-><<-1,13835058,-62>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,13107200,-14>>,y|-><<-1,8796093,-52>>,g|-><<-1,8444249,-60>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,12206080,-14>>,y|-><<-1,10891582,-52>>,g|-><<-1,11227832,-60>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,11640832,-14>>,y|-><<-1,12556469,-52>>,g|-><<-1,13572650,-60>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,11624448,-14>>,y|-><<-1,12609637,-52>>,g|-><<-1,13649332,-60>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,16384000,-15>>,y|-><<-1,9007199,-50>>,g|-><<-1,13835058,-58>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,13107200,-16>>,y|-><<-1,8796093,-46>>,g|-><<-1,8444249,-52>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,9830400,-16>>,y|-><<-1,10424999,-45>>,g|-><<-1,13343999,-51>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,8388608,-16>>,y|-><<-1,8388608,-44>>,g|-><<-1,12582912,-50>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,13107200,-17>>,y|-><<-1,8796093,-43>>,g|-><<-1,8444249,-48>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,12451840,-17>>,y|-><<-1,10259330,-43>>,g|-><<-1,10367323,-48>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,11730944,-17>>,y|-><<-1,12269326,-43>>,g|-><<-1,13160394,-48>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,11599872,-17>>,y|-><<-1,12689953,-43>>,g|-><<-1,13765372,-48>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,11403264,-17>>,y|-><<-1,13357711,-43>>,g|-><<-1,14739544,-48>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,10485760,-17>>,y|-><<-1,8589935,-42>>,g|-><<-1,10307922,-47>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,8388608,-17>>,y|-><<-1,8388608,-41>>,g|-><<-1,12582912,-46>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,13107200,-18>>,y|-><<-1,8796093,-40>>,g|-><<-1,8444249,-44>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,11272192,-18>>,y|-><<-1,13829117,-40>>,g|-><<-1,15437154,-44>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,15728640,-19>>,y|-><<-1,10180663,-38>>,g|-><<-1,16289061,-42>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,10485760,-19>>,y|-><<-1,8589935,-36>>,g|-><<-1,10307922,-39>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,8650752,-19>>,y|-><<-1,15297766,-36>>,g|-><<-1,11125648,-38>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,16252928,-20>>,y|-><<-1,9226877,-35>>,g|-><<-1,14286778,-38>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,10485760,-20>>,y|-><<-1,8589935,-33>>,g|-><<-1,10307922,-35>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,8388608,-20>>,y|-><<-1,8388608,-32>>,g|-><<-1,12582912,-34>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,10485760,-21>>,y|-><<-1,8589935,-30>>,g|-><<-1,10307922,-31>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,12582912,-22>>,y|-><<-1,9942054,-28>>,g|-><<-1,9942054,-28>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,8388608,-22>>,y|-><<-1,8388608,-26>>,g|-><<-1,12582912,-26>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,12582912,-23>>,y|-><<-1,9942054,-25>>,g|-><<-1,9942054,-24>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,8388608,-23>>,y|-><<-1,8388608,-23>>,g|-><<-1,12582912,-22>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,12582912,-24>>,y|-><<-1,9942054,-22>>,g|-><<-1,9942054,-20>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,8388608,-24>>,y|-><<-1,8388608,-20>>,g|-><<-1,12582912,-18>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,8388608,-25>>,y|-><<-1,8388608,-17>>,g|-><<-1,12582912,-14>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,13421773,-27>>,y|-><<-1,16383999,-14>>,g|-><<-1,15359999,-9>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,8589935,-33>>,y|-><<-1,15624998,6>>,g|-><<-1,11444090,18>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<-1,8388608,-43>>,y|-><<-1,8388608,37>>,g|-><<-1,12582912,58>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,8388608,-43>>,y|-><<1,8388608,37>>,g|-><<-1,12582912,58>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,8589935,-33>>,y|-><<1,15624998,6>>,g|-><<-1,11444090,18>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,13421773,-27>>,y|-><<1,16383999,-14>>,g|-><<-1,15359999,-9>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,8388608,-25>>,y|-><<1,8388608,-17>>,g|-><<-1,12582912,-14>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,8388608,-24>>,y|-><<1,8388608,-20>>,g|-><<-1,12582912,-18>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,12582912,-24>>,y|-><<1,9942054,-22>>,g|-><<-1,9942054,-20>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<-1,12582912,-22>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,12582912,-23>>,y|-><<1,9942054,-25>>,g|-><<-1,9942054,-24>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,8388608,-22>>,y|-><<1,8388608,-26>>,g|-><<-1,12582912,-26>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,12582912,-22>>,y|-><<1,9942054,-28>>,g|-><<-1,9942054,-28>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,10485760,-21>>,y|-><<1,8589935,-30>>,g|-><<-1,10307922,-31>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,8388608,-20>>,y|-><<1,8388608,-32>>,g|-><<-1,12582912,-34>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,10485760,-20>>,y|-><<1,8589935,-33>>,g|-><<-1,10307922,-35>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,16252928,-20>>,y|-><<1,9226877,-35>>,g|-><<-1,14286778,-38>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,8650752,-19>>,y|-><<1,15297766,-36>>,g|-><<-1,11125648,-38>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,10485760,-19>>,y|-><<1,8589935,-36>>,g|-><<-1,10307922,-39>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,15728640,-19>>,y|-><<1,10180663,-38>>,g|-><<-1,16289061,-42>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,11272192,-18>>,y|-><<1,13829117,-40>>,g|-><<-1,15437154,-44>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,13107200,-18>>,y|-><<1,8796093,-40>>,g|-><<-1,8444249,-44>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,8388608,-17>>,y|-><<1,8388608,-41>>,g|-><<-1,12582912,-46>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,10485760,-17>>,y|-><<1,8589935,-42>>,g|-><<-1,10307922,-47>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,11403264,-17>>,y|-><<1,13357711,-43>>,g|-><<-1,14739544,-48>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,11599872,-17>>,y|-><<1,12689953,-43>>,g|-><<-1,13765372,-48>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,11730944,-17>>,y|-><<1,12269326,-43>>,g|-><<-1,13160394,-48>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,12451840,-17>>,y|-><<1,10259330,-43>>,g|-><<-1,10367323,-48>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,13107200,-17>>,y|-><<1,8796093,-43>>,g|-><<-1,8444249,-48>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,8388608,-16>>,y|-><<1,8388608,-44>>,g|-><<-1,12582912,-50>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,9830400,-16>>,y|-><<1,10424999,-45>>,g|-><<-1,13343999,-51>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,13107200,-16>>,y|-><<1,8796093,-46>>,g|-><<-1,8444249,-52>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,16384000,-15>>,y|-><<1,9007199,-50>>,g|-><<-1,13835058,-58>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,11624448,-14>>,y|-><<1,12609637,-52>>,g|-><<-1,13649332,-60>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,11640832,-14>>,y|-><<1,12556469,-52>>,g|-><<-1,13572650,-60>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,12206080,-14>>,y|-><<1,10891582,-52>>,g|-><<-1,11227832,-60>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,13107200,-14>>,y|-><<1,8796093,-52>>,g|-><<-1,8444249,-60>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,16384000,-14>>,y|-><<1,9007199,-53>>,g|-><<-1,13835058,-62>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,8388608,-11>>,y|-><<1,8388608,-59>>,g|-><<-1,12582912,-70>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,10240000,-10>>,y|-><<1,9223372,-63>>,g|-><<-1,11333680,-75>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,8388608,-7>>,y|-><<1,8388608,-71>>,g|-><<-1,12582912,-86>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,16000000,-4>>,y|-><<1,9671407,-83>>,g|-><<-1,15211807,-102>>,w|->10,s|->0],
[f|->"powi",k|->-3,x|-><<1,15432099,3>>,y|-><<1,10778904,-104>>,g|-><<-1,8788824,-129>>,w|->10,s|->0],
[f|->"powi",k|->-2,x|-><<-1,9765625,10>>,y|-><<1,12379400,-90>>,g|-><<1,10633824,-122>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,15432099,3>>,y|-><<1,9914703,-77>>,g|-><<1,10778904,-103>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,16000000,-4>>,y|-><<1,9223372,-63>>,g|-><<1,9671407,-82>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,8388608,-7>>,y|-><<1,8388608,-55>>,g|-><<1,8388608,-70>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,10240000,-10>>,y|-><<1,11258999,-50>>,g|-><<1,9223372,-62>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,8388608,-11>>,y|-><<1,8388608,-47>>,g|-><<1,8388608,-58>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,16384000,-14>>,y|-><<1,8796093,-43>>,g|-><<1,9007199,-52>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,13107200,-14>>,y|-><<1,13743895,-43>>,g|-><<1,8796093,-51>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,12206080,-14>>,y|-><<1,15848102,-43>>,g|-><<1,10891582,-51>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,11640832,-14>>,y|-><<1,8712277,-42>>,g|-><<1,12556469,-51>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,11624448,-14>>,y|-><<1,8736853,-42>>,g|-><<1,12609637,-51>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,16384000,-15>>,y|-><<1,8796093,-41>>,g|-><<1,9007199,-49>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,13107200,-16>>,y|-><<1,13743895,-39>>,g|-><<1,8796093,-45>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,9830400,-16>>,y|-><<1,12216796,-38>>,g|-><<1,10424999,-44>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,8388608,-16>>,y|-><<1,8388608,-37>>,g|-><<1,8388608,-43>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,13107200,-17>>,y|-><<1,13743895,-37>>,g|-><<1,8796093,-42>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,12451840,-17>>,y|-><<1,15228693,-37>>,g|-><<1,10259330,-42>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,11730944,-17>>,y|-><<1,8578943,-36>>,g|-><<1,12269326,-42>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,11599872,-17>>,y|-><<1,8773913,-36>>,g|-><<1,12689953,-42>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,11403264,-17>>,y|-><<1,9079069,-36>>,g|-><<1,13357711,-42>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,10485760,-17>>,y|-><<1,10737418,-36>>,g|-><<1,8589935,-41>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,8388608,-17>>,y|-><<1,8388608,-35>>,g|-><<1,8388608,-40>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,13107200,-18>>,y|-><<1,13743895,-35>>,g|-><<1,8796093,-39>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,11272192,-18>>,y|-><<1,9291438,-34>>,g|-><<1,13829117,-39>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,15728640,-19>>,y|-><<1,9544372,-33>>,g|-><<1,10180663,-37>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,10485760,-19>>,y|-><<1,10737418,-32>>,g|-><<1,8589935,-35>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,8650752,-19>>,y|-><<1,15775821,-32>>,g|-><<1,15297766,-35>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,16252928,-20>>,y|-><<1,8938538,-31>>,g|-><<1,9226877,-34>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,10485760,-20>>,y|-><<1,10737418,-30>>,g|-><<1,8589935,-32>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,8388608,-20>>,y|-><<1,8388608,-29>>,g|-><<1,8388608,-31>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,10485760,-21>>,y|-><<1,10737418,-28>>,g|-><<1,8589935,-29>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,12582912,-22>>,y|-><<1,14913081,-27>>,g|-><<1,9942054,-27>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,8388608,-22>>,y|-><<1,8388608,-25>>,g|-><<1,8388608,-25>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,12582912,-23>>,y|-><<1,14913081,-25>>,g|-><<1,9942054,-24>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-22>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,12582912,-24>>,y|-><<1,14913081,-23>>,g|-><<1,9942054,-21>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,8388608,-24>>,y|-><<1,8388608,-21>>,g|-><<1,8388608,-19>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,8388608,-25>>,y|-><<1,8388608,-19>>,g|-><<1,8388608,-16>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,13421773,-27>>,y|-><<1,13107200,-17>>,g|-><<1,16383999,-13>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,8589935,-33>>,y|-><<1,15999998,-4>>,g|-><<1,15624998,7>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<-1,8388608,-43>>,y|-><<1,8388608,17>>,g|-><<1,8388608,38>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,8388608,-43>>,y|-><<1,8388608,17>>,g|-><<-1,8388608,38>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,8589935,-33>>,y|-><<1,15999998,-4>>,g|-><<-1,15624998,7>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,13421773,-27>>,y|-><<1,13107200,-17>>,g|-><<-1,16383999,-13>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,8388608,-25>>,y|-><<1,8388608,-19>>,g|-><<-1,8388608,-16>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,8388608,-24>>,y|-><<1,8388608,-21>>,g|-><<-1,8388608,-19>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,12582912,-24>>,y|-><<1,14913081,-23>>,g|-><<-1,9942054,-21>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<-1,8388608,-22>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,12582912,-23>>,y|-><<1,14913081,-25>>,g|-><<-1,9942054,-24>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,8388608,-22>>,y|-><<1,8388608,-25>>,g|-><<-1,8388608,-25>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,12582912,-22>>,y|-><<1,14913081,-27>>,g|-><<-1,9942054,-27>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,10485760,-21>>,y|-><<1,10737418,-28>>,g|-><<-1,8589935,-29>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,8388608,-20>>,y|-><<1,8388608,-29>>,g|-><<-1,8388608,-31>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,10485760,-20>>,y|-><<1,10737418,-30>>,g|-><<-1,8589935,-32>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,16252928,-20>>,y|-><<1,8938538,-31>>,g|-><<-1,9226877,-34>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,8650752,-19>>,y|-><<1,15775821,-32>>,g|-><<-1,15297766,-35>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,10485760,-19>>,y|-><<1,10737418,-32>>,g|-><<-1,8589935,-35>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,15728640,-19>>,y|-><<1,9544372,-33>>,g|-><<-1,10180663,-37>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,11272192,-18>>,y|-><<1,9291438,-34>>,g|-><<-1,13829117,-39>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,13107200,-18>>,y|-><<1,13743895,-35>>,g|-><<-1,8796093,-39>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,8388608,-17>>,y|-><<1,8388608,-35>>,g|-><<-1,8388608,-40>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,10485760,-17>>,y|-><<1,10737418,-36>>,g|-><<-1,8589935,-41>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,11403264,-17>>,y|-><<1,9079069,-36>>,g|-><<-1,13357711,-42>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,11599872,-17>>,y|-><<1,8773913,-36>>,g|-><<-1,12689953,-42>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,11730944,-17>>,y|-><<1,8578943,-36>>,g|-><<-1,12269326,-42>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,12451840,-17>>,y|-><<1,15228693,-37>>,g|-><<-1,10259330,-42>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,13107200,-17>>,y|-><<1,13743895,-37>>,g|-><<-1,8796093,-42>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,8388608,-16>>,y|-><<1,8388608,-37>>,g|-><<-1,8388608,-43>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,9830400,-16>>,y|-><<1,12216796,-38>>,g|-><<-1,10424999,-44>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,13107200,-16>>,y|-><<1,13743895,-39>>,g|-><<-1,8796093,-45>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,16384000,-15>>,y|-><<1,8796093,-41>>,g|-><<-1,9007199,-49>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,11624448,-14>>,y|-><<1,8736853,-42>>,g|-><<-1,12609637,-51>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,11640832,-14>>,y|-><<1,8712277,-42>>,g|-><<-1,12556469,-51>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,12206080,-14>>,y|-><<1,15848102,-43>>,g|-><<-1,10891582,-51>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,13107200,-14>>,y|-><<1,13743895,-43>>,g|-><<-1,8796093,-51>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,16384000,-14>>,y|-><<1,8796093,-43>>,g|-><<-1,9007199,-52>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,8388608,-11>>,y|-><<1,8388608,-47>>,g|-><<-1,8388608,-58>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,10240000,-10>>,y|-><<1,11258999,-50>>,g|-><<-1,9223372,-62>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,8388608,-7>>,y|-><<1,8388608,-55>>,g|-><<-1,8388608,-70>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,16000000,-4>>,y|-><<1,9223372,-63>>,g|-><<-1,9671407,-82>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,15432099,3>>,y|-><<1,9914703,-77>>,g|-><<-1,10778904,-103>>,w|->8,s|->0],
[f|->"powi",k|->-2,x|-><<1,9765625,10>>,y|-><<1,12379400,-90>>,g|-><<-1,10633824,-122>>,w|->8,s|->0],
[f|->"powi",k|->-1,x|-><<-1,14901161,26>>,y|-><<-1,9444733,-73>>,g|-><<-1,10633824,-123>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,9765625,10>>,y|-><<-1,14411519,-57>>,g|-><<-1,12379400,-90>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,15432099,3>>,y|-><<-1,9119789,-50>>,g|-><<-1,9914703,-77>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,16000000,-4>>,y|-><<-1,8796093,-43>>,g|-><<-1,9223372,-63>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,8388608,-7>>,y|-><<-1,8388608,-39>>,g|-><<-1,8388608,-55>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,10240000,-10>>,y|-><<-1,13743895,-37>>,g|-><<-1,11258999,-50>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,8388608,-11>>,y|-><<-1,8388608,-35>>,g|-><<-1,8388608,-47>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,16384000,-14>>,y|-><<-1,8589935,-33>>,g|-><<-1,8796093,-43>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,13107200,-14>>,y|-><<-1,10737418,-33>>,g|-><<-1,13743895,-43>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,12206080,-14>>,y|-><<-1,11530114,-33>>,g|-><<-1,15848102,-43>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,11640832,-14>>,y|-><<-1,12089985,-33>>,g|-><<-1,8712277,-42>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,11624448,-14>>,y|-><<-1,12107025,-33>>,g|-><<-1,8736853,-42>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,16384000,-15>>,y|-><<-1,8589935,-32>>,g|-><<-1,8796093,-41>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,13107200,-16>>,y|-><<-1,10737418,-31>>,g|-><<-1,13743895,-39>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,9830400,-16>>,y|-><<-1,14316558,-31>>,g|-><<-1,12216796,-38>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,8388608,-16>>,y|-><<-1,8388608,-30>>,g|-><<-1,8388608,-37>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,13107200,-17>>,y|-><<-1,10737418,-30>>,g|-><<-1,13743895,-37>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,12451840,-17>>,y|-><<-1,11302546,-30>>,g|-><<-1,15228693,-37>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,11730944,-17>>,y|-><<-1,11997115,-30>>,g|-><<-1,8578943,-36>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,11599872,-17>>,y|-><<-1,12132676,-30>>,g|-><<-1,8773913,-36>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,11403264,-17>>,y|-><<-1,12341860,-30>>,g|-><<-1,9079069,-36>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,10485760,-17>>,y|-><<-1,13421773,-30>>,g|-><<-1,10737418,-36>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,8388608,-17>>,y|-><<-1,8388608,-29>>,g|-><<-1,8388608,-35>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,13107200,-18>>,y|-><<-1,10737418,-29>>,g|-><<-1,13743895,-35>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,11272192,-18>>,y|-><<-1,12485370,-29>>,g|-><<-1,9291438,-34>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,15728640,-19>>,y|-><<-1,8947849,-28>>,g|-><<-1,9544372,-33>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,10485760,-19>>,y|-><<-1,13421773,-28>>,g|-><<-1,10737418,-32>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,8650752,-19>>,y|-><<-1,16268816,-28>>,g|-><<-1,15775821,-32>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,16252928,-20>>,y|-><<-1,8659208,-27>>,g|-><<-1,8938538,-31>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,10485760,-20>>,y|-><<-1,13421773,-27>>,g|-><<-1,10737418,-30>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,8388608,-20>>,y|-><<-1,8388608,-26>>,g|-><<-1,8388608,-29>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,10485760,-21>>,y|-><<-1,13421773,-26>>,g|-><<-1,10737418,-28>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,12582912,-22>>,y|-><<-1,11184811,-25>>,g|-><<-1,14913081,-27>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,8388608,-22>>,y|-><<-1,8388608,-24>>,g|-><<-1,8388608,-25>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,12582912,-23>>,y|-><<-1,11184811,-24>>,g|-><<-1,14913081,-25>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,8388608,-23>>,y|-><<-1,8388608,-23>>,g|-><<-1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,12582912,-24>>,y|-><<-1,11184811,-23>>,g|-><<-1,14913081,-23>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,8388608,-24>>,y|-><<-1,8388608,-22>>,g|-><<-1,8388608,-21>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,8388608,-25>>,y|-><<-1,8388608,-21>>,g|-><<-1,8388608,-19>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,13421773,-27>>,y|-><<-1,10485760,-20>>,g|-><<-1,13107200,-17>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,8589935,-33>>,y|-><<-1,16383999,-14>>,g|-><<-1,15999998,-4>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,8388608,-43>>,y|-><<-1,8388608,-3>>,g|-><<-1,8388608,17>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<-1,8388608,-63>>,y|-><<-1,8388608,17>>,g|-><<-1,8388608,57>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,8388608,-63>>,y|-><<1,8388608,17>>,g|-><<-1,8388608,57>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,8388608,-43>>,y|-><<1,8388608,-3>>,g|-><<-1,8388608,17>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,8589935,-33>>,y|-><<1,16383999,-14>>,g|-><<-1,15999998,-4>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,13421773,-27>>,y|-><<1,10485760,-20>>,g|-><<-1,13107200,-17>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,8388608,-25>>,y|-><<1,8388608,-21>>,g|-><<-1,8388608,-19>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,8388608,-24>>,y|-><<1,8388608,-22>>,g|-><<-1,8388608,-21>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,12582912,-24>>,y|-><<1,11184811,-23>>,g|-><<-1,14913081,-23>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<-1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,12582912,-23>>,y|-><<1,11184811,-24>>,g|-><<-1,14913081,-25>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,8388608,-22>>,y|-><<1,8388608,-24>>,g|-><<-1,8388608,-25>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,12582912,-22>>,y|-><<1,11184811,-25>>,g|-><<-1,14913081,-27>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,10485760,-21>>,y|-><<1,13421773,-26>>,g|-><<-1,10737418,-28>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,8388608,-20>>,y|-><<1,8388608,-26>>,g|-><<-1,8388608,-29>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,10485760,-20>>,y|-><<1,13421773,-27>>,g|-><<-1,10737418,-30>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,16252928,-20>>,y|-><<1,8659208,-27>>,g|-><<-1,8938538,-31>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,8650752,-19>>,y|-><<1,16268816,-28>>,g|-><<-1,15775821,-32>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,10485760,-19>>,y|-><<1,13421773,-28>>,g|-><<-1,10737418,-32>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,15728640,-19>>,y|-><<1,8947849,-28>>,g|-><<-1,9544372,-33>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,11272192,-18>>,y|-><<1,12485370,-29>>,g|-><<-1,9291438,-34>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,13107200,-18>>,y|-><<1,10737418,-29>>,g|-><<-1,13743895,-35>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,8388608,-17>>,y|-><<1,8388608,-29>>,g|-><<-1,8388608,-35>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,10485760,-17>>,y|-><<1,13421773,-30>>,g|-><<-1,10737418,-36>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,11403264,-17>>,y|-><<1,12341860,-30>>,g|-><<-1,9079069,-36>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,11599872,-17>>,y|-><<1,12132676,-30>>,g|-><<-1,8773913,-36>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,11730944,-17>>,y|-><<1,11997115,-30>>,g|-><<-1,8578943,-36>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,12451840,-17>>,y|-><<1,11302546,-30>>,g|-><<-1,15228693,-37>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,13107200,-17>>,y|-><<1,10737418,-30>>,g|-><<-1,13743895,-37>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,8388608,-16>>,y|-><<1,8388608,-30>>,g|-><<-1,8388608,-37>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,9830400,-16>>,y|-><<1,14316558,-31>>,g|-><<-1,12216796,-38>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,13107200,-16>>,y|-><<1,10737418,-31>>,g|-><<-1,13743895,-39>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,16384000,-15>>,y|-><<1,8589935,-32>>,g|-><<-1,8796093,-41>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,11624448,-14>>,y|-><<1,12107025,-33>>,g|-><<-1,8736853,-42>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,11640832,-14>>,y|-><<1,12089985,-33>>,g|-><<-1,8712277,-42>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,12206080,-14>>,y|-><<1,11530114,-33>>,g|-><<-1,15848102,-43>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,13107200,-14>>,y|-><<1,10737418,-33>>,g|-><<-1,13743895,-43>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,16384000,-14>>,y|-><<1,8589935,-33>>,g|-><<-1,8796093,-43>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,8388608,-11>>,y|-><<1,8388608,-35>>,g|-><<-1,8388608,-47>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,10240000,-10>>,y|-><<1,13743895,-37>>,g|-><<-1,11258999,-50>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,8388608,-7>>,y|-><<1,8388608,-39>>,g|-><<-1,8388608,-55>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,16000000,-4>>,y|-><<1,8796093,-43>>,g|-><<-1,9223372,-63>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,15432099,3>>,y|-><<1,9119789,-50>>,g|-><<-1,9914703,-77>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,9765625,10>>,y|-><<1,14411519,-57>>,g|-><<-1,12379400,-90>>,w|->6,s|->0],
[f|->"powi",k|->-1,x|-><<1,14901161,26>>,y|-><<1,9444733,-73>>,g|-><<-1,10633824,-123>>,w|->6,s|->0],
[f|->"powi",k|->0,x|-><<-1,14791142,104>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,13234890,76>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,11368684,43>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,14901161,26>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,9765625,10>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,15432099,3>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,16000000,-4>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,8388608,-7>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,10240000,-10>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,8388608,-11>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,16384000,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,13107200,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,12206080,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,11640832,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,11624448,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,16384000,-15>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,13107200,-16>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,9830400,-16>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,8388608,-16>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,13107200,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,12451840,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,11730944,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,11599872,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,11403264,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,10485760,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,8388608,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,13107200,-18>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,11272192,-18>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,15728640,-19>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,10485760,-19>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,8650752,-19>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,16252928,-20>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,10485760,-20>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,8388608,-20>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,10485760,-21>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,12582912,-22>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,8388608,-22>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,12582912,-23>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,12582912,-24>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,8388608,-24>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,8388608,-25>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,13421773,-27>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,8589935,-33>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,8388608,-43>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<-1,8388608,-63>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,8388608,-63>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,8388608,-43>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,8589935,-33>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,13421773,-27>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,8388608,-25>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,8388608,-24>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,12582912,-24>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,12582912,-23>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,8388608,-22>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,12582912,-22>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,10485760,-21>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,8388608,-20>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,10485760,-20>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,16252928,-20>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,8650752,-19>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,10485760,-19>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,15728640,-19>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,11272192,-18>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,13107200,-18>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,8388608,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,10485760,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,11403264,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,11599872,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,11730944,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,12451840,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,13107200,-17>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,8388608,-16>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,9830400,-16>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,13107200,-16>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,16384000,-15>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,11624448,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,11640832,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,12206080,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,13107200,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,16384000,-14>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,8388608,-11>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,10240000,-10>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,8388608,-7>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,16000000,-4>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,15432099,3>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,9765625,10>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,14901161,26>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,11368684,43>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,13234890,76>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->0,x|-><<1,14791142,104>>,y|-><<1,8388608,-23>>,g|-><<0,0,0>>,w|->4,s|->0],
[f|->"powi",k|->1,x|-><<-1,14901161,26>>,y|-><<-1,14901161,26>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,9765625,10>>,y|-><<-1,9765625,10>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,15432099,3>>,y|-><<-1,15432099,3>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,16000000,-4>>,y|-><<-1,16000000,-4>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,8388608,-7>>,y|-><<-1,8388608,-7>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,10240000,-10>>,y|-><<-1,10240000,-10>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,8388608,-11>>,y|-><<-1,8388608,-11>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,16384000,-14>>,y|-><<-1,16384000,-14>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,13107200,-14>>,y|-><<-1,13107200,-14>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,12206080,-14>>,y|-><<-1,12206080,-14>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,11640832,-14>>,y|-><<-1,11640832,-14>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,11624448,-14>>,y|-><<-1,11624448,-14>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,16384000,-15>>,y|-><<-1,16384000,-15>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,13107200,-16>>,y|-><<-1,13107200,-16>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,9830400,-16>>,y|-><<-1,9830400,-16>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,8388608,-16>>,y|-><<-1,8388608,-16>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,13107200,-17>>,y|-><<-1,13107200,-17>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,12451840,-17>>,y|-><<-1,12451840,-17>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,11730944,-17>>,y|-><<-1,11730944,-17>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,11599872,-17>>,y|-><<-1,11599872,-17>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,11403264,-17>>,y|-><<-1,11403264,-17>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,10485760,-17>>,y|-><<-1,10485760,-17>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,8388608,-17>>,y|-><<-1,8388608,-17>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,13107200,-18>>,y|-><<-1,13107200,-18>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,11272192,-18>>,y|-><<-1,11272192,-18>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,15728640,-19>>,y|-><<-1,15728640,-19>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,10485760,-19>>,y|-><<-1,10485760,-19>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,8650752,-19>>,y|-><<-1,8650752,-19>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,16252928,-20>>,y|-><<-1,16252928,-20>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,10485760,-20>>,y|-><<-1,10485760,-20>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,8388608,-20>>,y|-><<-1,8388608,-20>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,10485760,-21>>,y|-><<-1,10485760,-21>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,12582912,-22>>,y|-><<-1,12582912,-22>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,8388608,-22>>,y|-><<-1,8388608,-22>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,12582912,-23>>,y|-><<-1,12582912,-23>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,8388608,-23>>,y|-><<-1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,12582912,-24>>,y|-><<-1,12582912,-24>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,8388608,-24>>,y|-><<-1,8388608,-24>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,8388608,-25>>,y|-><<-1,8388608,-25>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,13421773,-27>>,y|-><<-1,13421773,-27>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,8589935,-33>>,y|-><<-1,8589935,-33>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,8388608,-43>>,y|-><<-1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<-1,8388608,-63>>,y|-><<-1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,8388608,-63>>,y|-><<1,8388608,-63>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,8388608,-43>>,y|-><<1,8388608,-43>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,8589935,-33>>,y|-><<1,8589935,-33>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,13421773,-27>>,y|-><<1,13421773,-27>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,8388608,-25>>,y|-><<1,8388608,-25>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,8388608,-24>>,y|-><<1,8388608,-24>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,12582912,-24>>,y|-><<1,12582912,-24>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,12582912,-23>>,y|-><<1,12582912,-23>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,8388608,-22>>,y|-><<1,8388608,-22>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,12582912,-22>>,y|-><<1,12582912,-22>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,10485760,-21>>,y|-><<1,10485760,-21>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,8388608,-20>>,y|-><<1,8388608,-20>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,10485760,-20>>,y|-><<1,10485760,-20>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,16252928,-20>>,y|-><<1,16252928,-20>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,8650752,-19>>,y|-><<1,8650752,-19>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,10485760,-19>>,y|-><<1,10485760,-19>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,15728640,-19>>,y|-><<1,15728640,-19>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,11272192,-18>>,y|-><<1,11272192,-18>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,13107200,-18>>,y|-><<1,13107200,-18>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,8388608,-17>>,y|-><<1,8388608,-17>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,10485760,-17>>,y|-><<1,10485760,-17>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,11403264,-17>>,y|-><<1,11403264,-17>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,11599872,-17>>,y|-><<1,11599872,-17>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,11730944,-17>>,y|-><<1,11730944,-17>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,12451840,-17>>,y|-><<1,12451840,-17>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,13107200,-17>>,y|-><<1,13107200,-17>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,8388608,-16>>,y|-><<1,8388608,-16>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,9830400,-16>>,y|-><<1,9830400,-16>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,13107200,-16>>,y|-><<1,13107200,-16>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,16384000,-15>>,y|-><<1,16384000,-15>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,11624448,-14>>,y|-><<1,11624448,-14>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,11640832,-14>>,y|-><<1,11640832,-14>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,12206080,-14>>,y|-><<1,12206080,-14>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,13107200,-14>>,y|-><<1,13107200,-14>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,16384000,-14>>,y|-><<1,16384000,-14>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,8388608,-11>>,y|-><<1,8388608,-11>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,10240000,-10>>,y|-><<1,10240000,-10>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,8388608,-7>>,y|-><<1,8388608,-7>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,16000000,-4>>,y|-><<1,16000000,-4>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,15432099,3>>,y|-><<1,15432099,3>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,9765625,10>>,y|-><<1,9765625,10>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->1,x|-><<1,14901161,26>>,y|-><<1,14901161,26>>,g|-><<1,8388608,-23>>,w|->6,s|->0],
[f|->"powi",k|->2,x|-><<-1,9765625,10>>,y|-><<1,11368684,43>>,g|-><<-1,9765625,11>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,15432099,3>>,y|-><<1,14194827,30>>,g|-><<-1,15432099,4>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,16000000,-4>>,y|-><<1,15258789,16>>,g|-><<-1,16000000,-3>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,8388608,-7>>,y|-><<1,8388608,9>>,g|-><<-1,8388608,-6>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,10240000,-10>>,y|-><<1,12500000,3>>,g|-><<-1,10240000,-9>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,8388608,-11>>,y|-><<1,8388608,1>>,g|-><<-1,8388608,-10>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,16384000,-14>>,y|-><<1,16000000,-4>>,g|-><<-1,16384000,-13>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,13107200,-14>>,y|-><<1,10240000,-4>>,g|-><<-1,13107200,-13>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,12206080,-14>>,y|-><<1,8880400,-4>>,g|-><<-1,12206080,-13>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,11640832,-14>>,y|-><<1,16153928,-5>>,g|-><<-1,11640832,-13>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,11624448,-14>>,y|-><<1,16108488,-5>>,g|-><<-1,11624448,-13>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,16384000,-15>>,y|-><<1,16000000,-6>>,g|-><<-1,16384000,-14>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,13107200,-16>>,y|-><<1,10240000,-8>>,g|-><<-1,13107200,-15>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,9830400,-16>>,y|-><<1,11520000,-9>>,g|-><<-1,9830400,-15>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,8388608,-16>>,y|-><<1,8388608,-9>>,g|-><<-1,8388608,-15>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,13107200,-17>>,y|-><<1,10240000,-10>>,g|-><<-1,13107200,-16>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,12451840,-17>>,y|-><<1,9241600,-10>>,g|-><<-1,12451840,-16>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,11730944,-17>>,y|-><<1,16404992,-11>>,g|-><<-1,11730944,-16>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,11599872,-17>>,y|-><<1,16040448,-11>>,g|-><<-1,11599872,-16>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,11403264,-17>>,y|-><<1,15501312,-11>>,g|-><<-1,11403264,-16>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,10485760,-17>>,y|-><<1,13107200,-11>>,g|-><<-1,10485760,-16>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,8388608,-17>>,y|-><<1,8388608,-11>>,g|-><<-1,8388608,-16>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,13107200,-18>>,y|-><<1,10240000,-12>>,g|-><<-1,13107200,-17>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,11272192,-18>>,y|-><<1,15147008,-13>>,g|-><<-1,11272192,-17>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,15728640,-19>>,y|-><<1,14745600,-14>>,g|-><<-1,15728640,-18>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,10485760,-19>>,y|-><<1,13107200,-15>>,g|-><<-1,10485760,-18>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,8650752,-19>>,y|-><<1,8921088,-15>>,g|-><<-1,8650752,-18>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,16252928,-20>>,y|-><<1,15745024,-16>>,g|-><<-1,16252928,-19>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,10485760,-20>>,y|-><<1,13107200,-17>>,g|-><<-1,10485760,-19>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,8388608,-20>>,y|-><<1,8388608,-17>>,g|-><<-1,8388608,-19>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,10485760,-21>>,y|-><<1,13107200,-19>>,g|-><<-1,10485760,-20>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,12582912,-22>>,y|-><<1,9437184,-20>>,g|-><<-1,12582912,-21>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,8388608,-22>>,y|-><<1,8388608,-21>>,g|-><<-1,8388608,-21>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,12582912,-23>>,y|-><<1,9437184,-22>>,g|-><<-1,12582912,-22>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<-1,8388608,-22>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,12582912,-24>>,y|-><<1,9437184,-24>>,g|-><<-1,12582912,-23>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,8388608,-24>>,y|-><<1,8388608,-25>>,g|-><<-1,8388608,-23>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,8388608,-25>>,y|-><<1,8388608,-27>>,g|-><<-1,8388608,-24>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,13421773,-27>>,y|-><<1,10737419,-30>>,g|-><<-1,13421773,-26>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,8589935,-33>>,y|-><<1,8796094,-43>>,g|-><<-1,8589935,-32>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<-1,8388608,-43>>,y|-><<1,8388608,-63>>,g|-><<-1,8388608,-42>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,8388608,-43>>,y|-><<1,8388608,-63>>,g|-><<1,8388608,-42>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,8589935,-33>>,y|-><<1,8796094,-43>>,g|-><<1,8589935,-32>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,13421773,-27>>,y|-><<1,10737419,-30>>,g|-><<1,13421773,-26>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,8388608,-25>>,y|-><<1,8388608,-27>>,g|-><<1,8388608,-24>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,8388608,-24>>,y|-><<1,8388608,-25>>,g|-><<1,8388608,-23>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,12582912,-24>>,y|-><<1,9437184,-24>>,g|-><<1,12582912,-23>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-22>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,12582912,-23>>,y|-><<1,9437184,-22>>,g|-><<1,12582912,-22>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,8388608,-22>>,y|-><<1,8388608,-21>>,g|-><<1,8388608,-21>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,12582912,-22>>,y|-><<1,9437184,-20>>,g|-><<1,12582912,-21>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,10485760,-21>>,y|-><<1,13107200,-19>>,g|-><<1,10485760,-20>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,8388608,-20>>,y|-><<1,8388608,-17>>,g|-><<1,8388608,-19>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,10485760,-20>>,y|-><<1,13107200,-17>>,g|-><<1,10485760,-19>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,16252928,-20>>,y|-><<1,15745024,-16>>,g|-><<1,16252928,-19>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,8650752,-19>>,y|-><<1,8921088,-15>>,g|-><<1,8650752,-18>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,10485760,-19>>,y|-><<1,13107200,-15>>,g|-><<1,10485760,-18>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,15728640,-19>>,y|-><<1,14745600,-14>>,g|-><<1,15728640,-18>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,11272192,-18>>,y|-><<1,15147008,-13>>,g|-><<1,11272192,-17>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,13107200,-18>>,y|-><<1,10240000,-12>>,g|-><<1,13107200,-17>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,8388608,-17>>,y|-><<1,8388608,-11>>,g|-><<1,8388608,-16>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,10485760,-17>>,y|-><<1,13107200,-11>>,g|-><<1,10485760,-16>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,11403264,-17>>,y|-><<1,15501312,-11>>,g|-><<1,11403264,-16>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,11599872,-17>>,y|-><<1,16040448,-11>>,g|-><<1,11599872,-16>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,11730944,-17>>,y|-><<1,16404992,-11>>,g|-><<1,11730944,-16>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,12451840,-17>>,y|-><<1,9241600,-10>>,g|-><<1,12451840,-16>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,13107200,-17>>,y|-><<1,10240000,-10>>,g|-><<1,13107200,-16>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,8388608,-16>>,y|-><<1,8388608,-9>>,g|-><<1,8388608,-15>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,9830400,-16>>,y|-><<1,11520000,-9>>,g|-><<1,9830400,-15>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,13107200,-16>>,y|-><<1,10240000,-8>>,g|-><<1,13107200,-15>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,16384000,-15>>,y|-><<1,16000000,-6>>,g|-><<1,16384000,-14>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,11624448,-14>>,y|-><<1,16108488,-5>>,g|-><<1,11624448,-13>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,11640832,-14>>,y|-><<1,16153928,-5>>,g|-><<1,11640832,-13>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,12206080,-14>>,y|-><<1,8880400,-4>>,g|-><<1,12206080,-13>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,13107200,-14>>,y|-><<1,10240000,-4>>,g|-><<1,13107200,-13>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,16384000,-14>>,y|-><<1,16000000,-4>>,g|-><<1,16384000,-13>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,8388608,-11>>,y|-><<1,8388608,1>>,g|-><<1,8388608,-10>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,10240000,-10>>,y|-><<1,12500000,3>>,g|-><<1,10240000,-9>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,8388608,-7>>,y|-><<1,8388608,9>>,g|-><<1,8388608,-6>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,16000000,-4>>,y|-><<1,15258789,16>>,g|-><<1,16000000,-3>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,15432099,3>>,y|-><<1,14194827,30>>,g|-><<1,15432099,4>>,w|->8,s|->0],
[f|->"powi",k|->2,x|-><<1,9765625,10>>,y|-><<1,11368684,43>>,g|-><<1,9765625,11>>,w|->8,s|->0],
[f|->"powi",k|->3,x|-><<-1,15432099,3>>,y|-><<-1,13056754,57>>,g|-><<1,10646120,32>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,16000000,-4>>,y|-><<-1,14551915,36>>,g|-><<1,11444092,18>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,8388608,-7>>,y|-><<-1,8388608,25>>,g|-><<1,12582912,10>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,10240000,-10>>,y|-><<-1,15258789,16>>,g|-><<1,9375000,5>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,8388608,-11>>,y|-><<-1,8388608,13>>,g|-><<1,12582912,2>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,16384000,-14>>,y|-><<-1,15625000,6>>,g|-><<1,12000000,-2>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,13107200,-14>>,y|-><<-1,16000000,5>>,g|-><<1,15360000,-3>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,12206080,-14>>,y|-><<-1,12921676,5>>,g|-><<1,13320600,-3>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,11640832,-14>>,y|-><<-1,11208365,5>>,g|-><<1,12115446,-3>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,11624448,-14>>,y|-><<-1,11161106,5>>,g|-><<1,12081366,-3>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,16384000,-15>>,y|-><<-1,15625000,3>>,g|-><<1,12000000,-4>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,13107200,-16>>,y|-><<-1,16000000,-1>>,g|-><<1,15360000,-7>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,9830400,-16>>,y|-><<-1,13500000,-2>>,g|-><<1,8640000,-7>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,8388608,-16>>,y|-><<-1,8388608,-2>>,g|-><<1,12582912,-8>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,13107200,-17>>,y|-><<-1,16000000,-4>>,g|-><<1,15360000,-9>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,12451840,-17>>,y|-><<-1,13718000,-4>>,g|-><<1,13862400,-9>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,11730944,-17>>,y|-><<-1,11470678,-4>>,g|-><<1,12303744,-9>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,11599872,-17>>,y|-><<-1,11090466,-4>>,g|-><<1,12030336,-9>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,11403264,-17>>,y|-><<-1,10536048,-4>>,g|-><<1,11625984,-9>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,10485760,-17>>,y|-><<-1,16384000,-5>>,g|-><<1,9830400,-9>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,8388608,-17>>,y|-><<-1,8388608,-5>>,g|-><<1,12582912,-10>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,13107200,-18>>,y|-><<-1,16000000,-7>>,g|-><<1,15360000,-11>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,11272192,-18>>,y|-><<-1,10176896,-7>>,g|-><<1,11360256,-11>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,15728640,-19>>,y|-><<-1,13824000,-9>>,g|-><<1,11059200,-12>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,10485760,-19>>,y|-><<-1,16384000,-11>>,g|-><<1,9830400,-13>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,8650752,-19>>,y|-><<-1,9199872,-11>>,g|-><<1,13381632,-14>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,16252928,-20>>,y|-><<-1,15252992,-12>>,g|-><<1,11808768,-14>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,10485760,-20>>,y|-><<-1,16384000,-14>>,g|-><<1,9830400,-15>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,8388608,-20>>,y|-><<-1,8388608,-14>>,g|-><<1,12582912,-16>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,10485760,-21>>,y|-><<-1,16384000,-17>>,g|-><<1,9830400,-17>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,12582912,-22>>,y|-><<-1,14155776,-19>>,g|-><<1,14155776,-19>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,8388608,-22>>,y|-><<-1,8388608,-20>>,g|-><<1,12582912,-20>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,12582912,-23>>,y|-><<-1,14155776,-22>>,g|-><<1,14155776,-21>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,8388608,-23>>,y|-><<-1,8388608,-23>>,g|-><<1,12582912,-22>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,12582912,-24>>,y|-><<-1,14155776,-25>>,g|-><<1,14155776,-23>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,8388608,-24>>,y|-><<-1,8388608,-26>>,g|-><<1,12582912,-24>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,8388608,-25>>,y|-><<-1,8388608,-29>>,g|-><<1,12582912,-26>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,13421773,-27>>,y|-><<-1,8589935,-33>>,g|-><<1,16106128,-29>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,8589935,-33>>,y|-><<-1,9007201,-53>>,g|-><<1,13194141,-42>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<-1,8388608,-43>>,y|-><<-1,8388608,-83>>,g|-><<1,12582912,-62>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,8388608,-43>>,y|-><<1,8388608,-83>>,g|-><<1,12582912,-62>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,8589935,-33>>,y|-><<1,9007201,-53>>,g|-><<1,13194141,-42>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,13421773,-27>>,y|-><<1,8589935,-33>>,g|-><<1,16106128,-29>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,8388608,-25>>,y|-><<1,8388608,-29>>,g|-><<1,12582912,-26>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,8388608,-24>>,y|-><<1,8388608,-26>>,g|-><<1,12582912,-24>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,12582912,-24>>,y|-><<1,14155776,-25>>,g|-><<1,14155776,-23>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,12582912,-22>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,12582912,-23>>,y|-><<1,14155776,-22>>,g|-><<1,14155776,-21>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,8388608,-22>>,y|-><<1,8388608,-20>>,g|-><<1,12582912,-20>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,12582912,-22>>,y|-><<1,14155776,-19>>,g|-><<1,14155776,-19>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,10485760,-21>>,y|-><<1,16384000,-17>>,g|-><<1,9830400,-17>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,8388608,-20>>,y|-><<1,8388608,-14>>,g|-><<1,12582912,-16>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,10485760,-20>>,y|-><<1,16384000,-14>>,g|-><<1,9830400,-15>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,16252928,-20>>,y|-><<1,15252992,-12>>,g|-><<1,11808768,-14>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,8650752,-19>>,y|-><<1,9199872,-11>>,g|-><<1,13381632,-14>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,10485760,-19>>,y|-><<1,16384000,-11>>,g|-><<1,9830400,-13>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,15728640,-19>>,y|-><<1,13824000,-9>>,g|-><<1,11059200,-12>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,11272192,-18>>,y|-><<1,10176896,-7>>,g|-><<1,11360256,-11>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,13107200,-18>>,y|-><<1,16000000,-7>>,g|-><<1,15360000,-11>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,8388608,-17>>,y|-><<1,8388608,-5>>,g|-><<1,12582912,-10>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,10485760,-17>>,y|-><<1,16384000,-5>>,g|-><<1,9830400,-9>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,11403264,-17>>,y|-><<1,10536048,-4>>,g|-><<1,11625984,-9>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,11599872,-17>>,y|-><<1,11090466,-4>>,g|-><<1,12030336,-9>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,11730944,-17>>,y|-><<1,11470678,-4>>,g|-><<1,12303744,-9>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,12451840,-17>>,y|-><<1,13718000,-4>>,g|-><<1,13862400,-9>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,13107200,-17>>,y|-><<1,16000000,-4>>,g|-><<1,15360000,-9>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,8388608,-16>>,y|-><<1,8388608,-2>>,g|-><<1,12582912,-8>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,9830400,-16>>,y|-><<1,13500000,-2>>,g|-><<1,8640000,-7>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,13107200,-16>>,y|-><<1,16000000,-1>>,g|-><<1,15360000,-7>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,16384000,-15>>,y|-><<1,15625000,3>>,g|-><<1,12000000,-4>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,11624448,-14>>,y|-><<1,11161106,5>>,g|-><<1,12081366,-3>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,11640832,-14>>,y|-><<1,11208365,5>>,g|-><<1,12115446,-3>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,12206080,-14>>,y|-><<1,12921676,5>>,g|-><<1,13320600,-3>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,13107200,-14>>,y|-><<1,16000000,5>>,g|-><<1,15360000,-3>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,16384000,-14>>,y|-><<1,15625000,6>>,g|-><<1,12000000,-2>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,8388608,-11>>,y|-><<1,8388608,13>>,g|-><<1,12582912,2>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,10240000,-10>>,y|-><<1,15258789,16>>,g|-><<1,9375000,5>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,8388608,-7>>,y|-><<1,8388608,25>>,g|-><<1,12582912,10>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,16000000,-4>>,y|-><<1,14551915,36>>,g|-><<1,11444092,18>>,w|->10,s|->0],
[f|->"powi",k|->3,x|-><<1,15432099,3>>,y|-><<1,13056754,57>>,g|-><<1,10646120,32>>,w|->10,s|->0],
[f|->"powi",k|->5,x|-><<-1,16000000,-4>>,y|-><<-1,13234890,76>>,g|-><<1,8673617,59>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,8388608,-7>>,y|-><<-1,8388608,57>>,g|-><<1,10485760,43>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,10240000,-10>>,y|-><<-1,11368684,43>>,g|-><<1,11641532,32>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,8388608,-11>>,y|-><<-1,8388608,37>>,g|-><<1,10485760,27>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,16384000,-14>>,y|-><<-1,14901161,26>>,g|-><<1,9536743,19>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,13107200,-14>>,y|-><<-1,9765625,25>>,g|-><<1,15625000,17>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,12206080,-14>>,y|-><<-1,13679224,24>>,g|-><<1,11751280,17>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,11640832,-14>>,y|-><<-1,10791965,24>>,g|-><<1,9721122,17>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,11624448,-14>>,y|-><<-1,10716232,24>>,g|-><<1,9666509,17>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,16384000,-15>>,y|-><<-1,14901161,21>>,g|-><<1,9536743,15>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,13107200,-16>>,y|-><<-1,9765625,15>>,g|-><<1,15625000,9>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,9830400,-16>>,y|-><<-1,9269714,13>>,g|-><<1,9887695,8>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,8388608,-16>>,y|-><<-1,8388608,12>>,g|-><<1,10485760,7>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,13107200,-17>>,y|-><<-1,9765625,10>>,g|-><<1,15625000,5>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,12451840,-17>>,y|-><<-1,15112909,9>>,g|-><<1,12726660,5>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,11730944,-17>>,y|-><<-1,11216186,9>>,g|-><<1,10025641,5>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,11599872,-17>>,y|-><<-1,10603430,9>>,g|-><<1,9585022,5>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,11403264,-17>>,y|-><<-1,9734784,9>>,g|-><<1,8951525,5>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,10485760,-17>>,y|-><<-1,12800000,8>>,g|-><<1,12800000,4>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,8388608,-17>>,y|-><<-1,8388608,7>>,g|-><<1,10485760,3>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,13107200,-18>>,y|-><<-1,9765625,5>>,g|-><<1,15625000,1>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,11272192,-18>>,y|-><<-1,9188028,4>>,g|-><<1,8547003,1>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,15728640,-19>>,y|-><<-1,12150000,1>>,g|-><<1,16200000,-2>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,10485760,-19>>,y|-><<-1,12800000,-2>>,g|-><<1,12800000,-4>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,8650752,-19>>,y|-><<-1,9783848,-3>>,g|-><<1,11859210,-5>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,16252928,-20>>,y|-><<-1,14314576,-4>>,g|-><<1,9235210,-5>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,10485760,-20>>,y|-><<-1,12800000,-7>>,g|-><<1,12800000,-8>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,8388608,-20>>,y|-><<-1,8388608,-8>>,g|-><<1,10485760,-9>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,10485760,-21>>,y|-><<-1,12800000,-12>>,g|-><<1,12800000,-12>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,12582912,-22>>,y|-><<-1,15925248,-16>>,g|-><<1,13271040,-15>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,8388608,-22>>,y|-><<-1,8388608,-18>>,g|-><<1,10485760,-17>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,12582912,-23>>,y|-><<-1,15925248,-21>>,g|-><<1,13271040,-19>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,8388608,-23>>,y|-><<-1,8388608,-23>>,g|-><<1,10485760,-21>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,12582912,-24>>,y|-><<-1,15925248,-26>>,g|-><<1,13271040,-23>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,8388608,-24>>,y|-><<-1,8388608,-28>>,g|-><<1,10485760,-25>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,8388608,-25>>,y|-><<-1,8388608,-33>>,g|-><<1,10485760,-29>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,13421773,-27>>,y|-><<-1,10995117,-40>>,g|-><<1,8589935,-34>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<-1,8589935,-33>>,y|-><<-1,9444735,-73>>,g|-><<1,11529217,-61>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,8589935,-33>>,y|-><<1,9444735,-73>>,g|-><<1,11529217,-61>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,13421773,-27>>,y|-><<1,10995117,-40>>,g|-><<1,8589935,-34>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,8388608,-25>>,y|-><<1,8388608,-33>>,g|-><<1,10485760,-29>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,8388608,-24>>,y|-><<1,8388608,-28>>,g|-><<1,10485760,-25>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,12582912,-24>>,y|-><<1,15925248,-26>>,g|-><<1,13271040,-23>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,10485760,-21>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,12582912,-23>>,y|-><<1,15925248,-21>>,g|-><<1,13271040,-19>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,8388608,-22>>,y|-><<1,8388608,-18>>,g|-><<1,10485760,-17>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,12582912,-22>>,y|-><<1,15925248,-16>>,g|-><<1,13271040,-15>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,10485760,-21>>,y|-><<1,12800000,-12>>,g|-><<1,12800000,-12>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,8388608,-20>>,y|-><<1,8388608,-8>>,g|-><<1,10485760,-9>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,10485760,-20>>,y|-><<1,12800000,-7>>,g|-><<1,12800000,-8>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,16252928,-20>>,y|-><<1,14314576,-4>>,g|-><<1,9235210,-5>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,8650752,-19>>,y|-><<1,9783848,-3>>,g|-><<1,11859210,-5>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,10485760,-19>>,y|-><<1,12800000,-2>>,g|-><<1,12800000,-4>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,15728640,-19>>,y|-><<1,12150000,1>>,g|-><<1,16200000,-2>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,11272192,-18>>,y|-><<1,9188028,4>>,g|-><<1,8547003,1>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,13107200,-18>>,y|-><<1,9765625,5>>,g|-><<1,15625000,1>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,8388608,-17>>,y|-><<1,8388608,7>>,g|-><<1,10485760,3>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,10485760,-17>>,y|-><<1,12800000,8>>,g|-><<1,12800000,4>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,11403264,-17>>,y|-><<1,9734784,9>>,g|-><<1,8951525,5>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,11599872,-17>>,y|-><<1,10603430,9>>,g|-><<1,9585022,5>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,11730944,-17>>,y|-><<1,11216186,9>>,g|-><<1,10025641,5>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,12451840,-17>>,y|-><<1,15112909,9>>,g|-><<1,12726660,5>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,13107200,-17>>,y|-><<1,9765625,10>>,g|-><<1,15625000,5>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,8388608,-16>>,y|-><<1,8388608,12>>,g|-><<1,10485760,7>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,9830400,-16>>,y|-><<1,9269714,13>>,g|-><<1,9887695,8>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,13107200,-16>>,y|-><<1,9765625,15>>,g|-><<1,15625000,9>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,16384000,-15>>,y|-><<1,14901161,21>>,g|-><<1,9536743,15>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,11624448,-14>>,y|-><<1,10716232,24>>,g|-><<1,9666509,17>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,11640832,-14>>,y|-><<1,10791965,24>>,g|-><<1,9721122,17>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,12206080,-14>>,y|-><<1,13679224,24>>,g|-><<1,11751280,17>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,13107200,-14>>,y|-><<1,9765625,25>>,g|-><<1,15625000,17>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,16384000,-14>>,y|-><<1,14901161,26>>,g|-><<1,9536743,19>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,8388608,-11>>,y|-><<1,8388608,37>>,g|-><<1,10485760,27>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,10240000,-10>>,y|-><<1,11368684,43>>,g|-><<1,11641532,32>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,8388608,-7>>,y|-><<1,8388608,57>>,g|-><<1,10485760,43>>,w|->14,s|->0],
[f|->"powi",k|->5,x|-><<1,16000000,-4>>,y|-><<1,13234890,76>>,g|-><<1,8673617,59>>,w|->14,s|->0],
[f|->"powi",k|->8,x|-><<-1,10240000,-10>>,y|-><<1,10339758,83>>,g|-><<-1,8470329,73>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,8388608,-11>>,y|-><<1,8388608,73>>,g|-><<-1,8388608,64>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,16384000,-14>>,y|-><<1,13877788,56>>,g|-><<-1,14210855,49>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,13107200,-14>>,y|-><<1,9313226,54>>,g|-><<-1,11920929,47>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,12206080,-14>>,y|-><<1,10535628,53>>,g|-><<-1,14481185,46>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,11640832,-14>>,y|-><<1,14419589,52>>,g|-><<-1,10391034,46>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,11624448,-14>>,y|-><<1,14258027,52>>,g|-><<-1,10289090,46>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,16384000,-15>>,y|-><<1,13877788,48>>,g|-><<-1,14210855,42>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,13107200,-16>>,y|-><<1,9313226,38>>,g|-><<-1,11920929,33>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,9830400,-16>>,y|-><<1,14917987,34>>,g|-><<-1,12730015,30>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,8388608,-16>>,y|-><<1,8388608,33>>,g|-><<-1,8388608,29>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,13107200,-17>>,y|-><<1,9313226,30>>,g|-><<-1,11920929,26>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,12451840,-17>>,y|-><<1,12357168,29>>,g|-><<-1,16649659,25>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,11730944,-17>>,y|-><<1,15337141,28>>,g|-><<-1,10967341,25>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,11599872,-17>>,y|-><<1,14018653,28>>,g|-><<-1,10137783,25>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,11403264,-17>>,y|-><<1,12226838,28>>,g|-><<-1,8994455,25>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,10485760,-17>>,y|-><<1,12500000,27>>,g|-><<-1,10000000,24>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,8388608,-17>>,y|-><<1,8388608,25>>,g|-><<-1,8388608,22>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,13107200,-18>>,y|-><<1,9313226,22>>,g|-><<-1,11920929,19>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,11272192,-18>>,y|-><<1,11146736,20>>,g|-><<-1,16590491,17>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,15728640,-19>>,y|-><<1,10011292,16>>,g|-><<-1,10678711,14>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,10485760,-19>>,y|-><<1,12500000,11>>,g|-><<-1,10000000,10>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,8650752,-19>>,y|-><<1,10730046,9>>,g|-><<-1,10404893,8>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,16252928,-20>>,y|-><<1,13014084,8>>,g|-><<-1,13433894,7>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,10485760,-20>>,y|-><<1,12500000,3>>,g|-><<-1,10000000,3>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,8388608,-20>>,y|-><<1,8388608,1>>,g|-><<-1,8388608,1>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,10485760,-21>>,y|-><<1,12500000,-5>>,g|-><<-1,10000000,-4>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,12582912,-22>>,y|-><<1,13436928,-11>>,g|-><<-1,8957952,-9>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,8388608,-22>>,y|-><<1,8388608,-15>>,g|-><<-1,8388608,-13>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,12582912,-23>>,y|-><<1,13436928,-19>>,g|-><<-1,8957952,-16>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<-1,8388608,-20>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,12582912,-24>>,y|-><<1,13436928,-27>>,g|-><<-1,8957952,-23>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,8388608,-24>>,y|-><<1,8388608,-31>>,g|-><<-1,8388608,-27>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,8388608,-25>>,y|-><<1,8388608,-39>>,g|-><<-1,8388608,-34>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,13421773,-27>>,y|-><<1,11259000,-50>>,g|-><<-1,14073750,-44>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<-1,8589935,-33>>,y|-><<1,10141209,-103>>,g|-><<-1,9903524,-90>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,8589935,-33>>,y|-><<1,10141209,-103>>,g|-><<1,9903524,-90>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,13421773,-27>>,y|-><<1,11259000,-50>>,g|-><<1,14073750,-44>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,8388608,-25>>,y|-><<1,8388608,-39>>,g|-><<1,8388608,-34>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,8388608,-24>>,y|-><<1,8388608,-31>>,g|-><<1,8388608,-27>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,12582912,-24>>,y|-><<1,13436928,-27>>,g|-><<1,8957952,-23>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-20>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,12582912,-23>>,y|-><<1,13436928,-19>>,g|-><<1,8957952,-16>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,8388608,-22>>,y|-><<1,8388608,-15>>,g|-><<1,8388608,-13>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,12582912,-22>>,y|-><<1,13436928,-11>>,g|-><<1,8957952,-9>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,10485760,-21>>,y|-><<1,12500000,-5>>,g|-><<1,10000000,-4>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,8388608,-20>>,y|-><<1,8388608,1>>,g|-><<1,8388608,1>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,10485760,-20>>,y|-><<1,12500000,3>>,g|-><<1,10000000,3>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,16252928,-20>>,y|-><<1,13014084,8>>,g|-><<1,13433894,7>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,8650752,-19>>,y|-><<1,10730046,9>>,g|-><<1,10404893,8>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,10485760,-19>>,y|-><<1,12500000,11>>,g|-><<1,10000000,10>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,15728640,-19>>,y|-><<1,10011292,16>>,g|-><<1,10678711,14>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,11272192,-18>>,y|-><<1,11146736,20>>,g|-><<1,16590491,17>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,13107200,-18>>,y|-><<1,9313226,22>>,g|-><<1,11920929,19>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,8388608,-17>>,y|-><<1,8388608,25>>,g|-><<1,8388608,22>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,10485760,-17>>,y|-><<1,12500000,27>>,g|-><<1,10000000,24>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,11403264,-17>>,y|-><<1,12226838,28>>,g|-><<1,8994455,25>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,11599872,-17>>,y|-><<1,14018653,28>>,g|-><<1,10137783,25>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,11730944,-17>>,y|-><<1,15337141,28>>,g|-><<1,10967341,25>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,12451840,-17>>,y|-><<1,12357168,29>>,g|-><<1,16649659,25>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,13107200,-17>>,y|-><<1,9313226,30>>,g|-><<1,11920929,26>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,8388608,-16>>,y|-><<1,8388608,33>>,g|-><<1,8388608,29>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,9830400,-16>>,y|-><<1,14917987,34>>,g|-><<1,12730015,30>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,13107200,-16>>,y|-><<1,9313226,38>>,g|-><<1,11920929,33>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,16384000,-15>>,y|-><<1,13877788,48>>,g|-><<1,14210855,42>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,11624448,-14>>,y|-><<1,14258027,52>>,g|-><<1,10289090,46>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,11640832,-14>>,y|-><<1,14419589,52>>,g|-><<1,10391034,46>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,12206080,-14>>,y|-><<1,10535628,53>>,g|-><<1,14481185,46>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,13107200,-14>>,y|-><<1,9313226,54>>,g|-><<1,11920929,47>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,16384000,-14>>,y|-><<1,13877788,56>>,g|-><<1,14210855,49>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,8388608,-11>>,y|-><<1,8388608,73>>,g|-><<1,8388608,64>>,w|->20,s|->0],
[f|->"powi",k|->8,x|-><<1,10240000,-10>>,y|-><<1,10339758,83>>,g|-><<1,8470329,73>>,w|->20,s|->0],
[f|->"powi",k|->16,x|-><<-1,8388608,-16>>,y|-><<1,8388608,89>>,g|-><<-1,8388608,86>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,13107200,-17>>,y|-><<1,10339758,83>>,g|-><<-1,13234890,80>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,12451840,-17>>,y|-><<1,9101606,82>>,g|-><<-1,12263217,79>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,11730944,-17>>,y|-><<1,14020675,80>>,g|-><<-1,10025957,78>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,11599872,-17>>,y|-><<1,11713662,80>>,g|-><<-1,8470897,78>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,11403264,-17>>,y|-><<1,8910630,80>>,g|-><<-1,13109892,77>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,10485760,-17>>,y|-><<1,9313226,78>>,g|-><<-1,14901161,75>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,8388608,-17>>,y|-><<1,8388608,73>>,g|-><<-1,8388608,71>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,13107200,-18>>,y|-><<1,10339758,67>>,g|-><<-1,13234890,65>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,11272192,-18>>,y|-><<1,14811722,63>>,g|-><<-1,11022677,62>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,15728640,-19>>,y|-><<1,11947865,55>>,g|-><<-1,12744390,54>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,10485760,-19>>,y|-><<1,9313226,46>>,g|-><<-1,14901161,45>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,8650752,-19>>,y|-><<1,13725029,41>>,g|-><<-1,13309119,41>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,16252928,-20>>,y|-><<1,10095024,40>>,g|-><<-1,10420670,40>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,10485760,-20>>,y|-><<1,9313226,30>>,g|-><<-1,14901161,30>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,8388608,-20>>,y|-><<1,8388608,25>>,g|-><<-1,8388608,26>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,10485760,-21>>,y|-><<1,9313226,14>>,g|-><<-1,14901161,15>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,12582912,-22>>,y|-><<1,10761680,2>>,g|-><<-1,14348907,4>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,8388608,-22>>,y|-><<1,8388608,-7>>,g|-><<-1,8388608,-4>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,12582912,-23>>,y|-><<1,10761680,-14>>,g|-><<-1,14348907,-11>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<-1,8388608,-19>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,12582912,-24>>,y|-><<1,10761680,-30>>,g|-><<-1,14348907,-26>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,8388608,-24>>,y|-><<1,8388608,-39>>,g|-><<-1,8388608,-34>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,8388608,-25>>,y|-><<1,8388608,-55>>,g|-><<-1,8388608,-49>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<-1,13421773,-27>>,y|-><<1,15111576,-77>>,g|-><<-1,9444735,-69>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,13421773,-27>>,y|-><<1,15111576,-77>>,g|-><<1,9444735,-69>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,8388608,-25>>,y|-><<1,8388608,-55>>,g|-><<1,8388608,-49>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,8388608,-24>>,y|-><<1,8388608,-39>>,g|-><<1,8388608,-34>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,12582912,-24>>,y|-><<1,10761680,-30>>,g|-><<1,14348907,-26>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,8388608,-19>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,12582912,-23>>,y|-><<1,10761680,-14>>,g|-><<1,14348907,-11>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,8388608,-22>>,y|-><<1,8388608,-7>>,g|-><<1,8388608,-4>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,12582912,-22>>,y|-><<1,10761680,2>>,g|-><<1,14348907,4>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,10485760,-21>>,y|-><<1,9313226,14>>,g|-><<1,14901161,15>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,8388608,-20>>,y|-><<1,8388608,25>>,g|-><<1,8388608,26>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,10485760,-20>>,y|-><<1,9313226,30>>,g|-><<1,14901161,30>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,16252928,-20>>,y|-><<1,10095024,40>>,g|-><<1,10420670,40>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,8650752,-19>>,y|-><<1,13725029,41>>,g|-><<1,13309119,41>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,10485760,-19>>,y|-><<1,9313226,46>>,g|-><<1,14901161,45>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,15728640,-19>>,y|-><<1,11947865,55>>,g|-><<1,12744390,54>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,11272192,-18>>,y|-><<1,14811722,63>>,g|-><<1,11022677,62>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,13107200,-18>>,y|-><<1,10339758,67>>,g|-><<1,13234890,65>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,8388608,-17>>,y|-><<1,8388608,73>>,g|-><<1,8388608,71>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,10485760,-17>>,y|-><<1,9313226,78>>,g|-><<1,14901161,75>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,11403264,-17>>,y|-><<1,8910630,80>>,g|-><<1,13109892,77>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,11599872,-17>>,y|-><<1,11713662,80>>,g|-><<1,8470897,78>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,11730944,-17>>,y|-><<1,14020675,80>>,g|-><<1,10025957,78>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,12451840,-17>>,y|-><<1,9101606,82>>,g|-><<1,12263217,79>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,13107200,-17>>,y|-><<1,10339758,83>>,g|-><<1,13234890,80>>,w|->36,s|->0],
[f|->"powi",k|->16,x|-><<1,8388608,-16>>,y|-><<1,8388608,89>>,g|-><<1,8388608,86>>,w|->36,s|->0],
[f|->"powi",k|->31,x|-><<-1,10485760,-20>>,y|-><<-1,16543612,79>>,g|-><<1,12821299,81>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<-1,8388608,-20>>,y|-><<-1,8388608,70>>,g|-><<1,16252928,71>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<-1,10485760,-21>>,y|-><<-1,16543612,48>>,g|-><<1,12821299,51>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<-1,12582912,-22>>,y|-><<-1,9204051,26>>,g|-><<1,11888566,29>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<-1,8388608,-22>>,y|-><<-1,8388608,8>>,g|-><<1,16252928,11>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<-1,12582912,-23>>,y|-><<-1,9204051,-5>>,g|-><<1,11888566,-1>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<-1,8388608,-23>>,y|-><<-1,8388608,-23>>,g|-><<1,16252928,-19>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<-1,12582912,-24>>,y|-><<-1,9204051,-36>>,g|-><<1,11888566,-31>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<-1,8388608,-24>>,y|-><<-1,8388608,-54>>,g|-><<1,16252928,-49>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<-1,8388608,-25>>,y|-><<-1,8388608,-85>>,g|-><<1,16252928,-79>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<-1,13421773,-27>>,y|-><<-1,8507063,-126>>,g|-><<1,10301522,-118>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<1,13421773,-27>>,y|-><<1,8507063,-126>>,g|-><<1,10301522,-118>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<1,8388608,-25>>,y|-><<1,8388608,-85>>,g|-><<1,16252928,-79>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<1,8388608,-24>>,y|-><<1,8388608,-54>>,g|-><<1,16252928,-49>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<1,12582912,-24>>,y|-><<1,9204051,-36>>,g|-><<1,11888566,-31>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<1,8388608,-23>>,y|-><<1,8388608,-23>>,g|-><<1,16252928,-19>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<1,12582912,-23>>,y|-><<1,9204051,-5>>,g|-><<1,11888566,-1>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<1,8388608,-22>>,y|-><<1,8388608,8>>,g|-><<1,16252928,11>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<1,12582912,-22>>,y|-><<1,9204051,26>>,g|-><<1,11888566,29>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<1,10485760,-21>>,y|-><<1,16543612,48>>,g|-><<1,12821299,51>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<1,8388608,-20>>,y|-><<1,8388608,70>>,g|-><<1,16252928,71>>,w|->66,s|->0],
[f|->"powi",k|->31,x|-><<1,10485760,-20>>,y|-><<1,16543612,79>>,g|-><<1,12821299,81>>,w|->66,s|->0]
>>
====
