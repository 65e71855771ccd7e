// Lines of Narsese in everyday use, from the examples of the repository.
static const char *CORPUS[] = {
    "$0.90;0.90$ (&&,<robin --> swimmer>,<robin --> [flying]>). %0.9%",
    "(&&, <(&&, <#x-->bird>, <#x-->swimer>)-->#y>, <swan-->#y>).",
    "(&&, <?x-->b>, <c-->d>)?",
    "(&&, <A-->B>, <C-->D>)?",
    "(&&, <a-->b>, <c-->d>).",
    "(&&,<#1 --> [unscrewing]>,<#1 --> object>)! %1.00;0.90%",
    "(&&,<#1 --> lock>,<<$2 --> key> ==> <#1 --> (/,open,$2,_)>>). %1.00;0.90%",
    "(&&,<#1 --> object>,<#1 --> [unscrewing]>)!",
    "(&&,<#x --> (/,open,#y,_)>,<#x --> lock>,<#y --> key>).",
    "(&&,<#x --> bird>,<#x --> swimmer>).",
    "(&&,<#x --> key>,<{lock1} --> (/,open,#x,_)>).",
    "(&&,<#x --> lock>,<<$y --> key> ==> <#x --> (/,open,$y,_)>>).",
    "(&&,<robin --> [flying]>,<robin --> swimmer>). %0%",
    "(&/,<(*,SELF,{t001}) --> at>,(^open,{SELF},{t001}))!",
    "(&/,<(*,SELF,{t001}) --> at>,(^open,{t001}))!",
    "(&/,<(*,SELF,{t002}) --> hold>,+100,<(*,SELF,{t001}) --> at>,+100,(^open,{SELF},{t001}))!",
    "(&/,<(*,SELF,{t002}) --> hold>,<(*,SELF,{t001}) --> at>,(^open,{t001}))!",
    "(&/,<(*,SELF,{t002}) --> reachable>,(^pick,{t002}))!",
    "(&|,<#1 --> (/,on,{t002},_)>,<#1 --> (/,at,SELF,_)>). :\\:",
    "(&|,<(*,{t002},#1) --> on>,<(*,#1,SELF) --> at>)!",
    "(&|,<(*,{t002},#1) --> on>,<(*,SELF,#1) --> at>). :|:",
    "(&|,<(*,{t002},{t003}) --> on>,<(*,{t003},SELF) --> at>)!",
    "(--,<(*,{Gary},{Frank}) --> Friends>). %1.00;0.99%",
    "(--,<robin --> [flying]>). %0.1%",
    "(--,<robin --> [flying]>)?",
    "(--,<{David} --> (/,taller_than,{Tom},_)>).",
    "(^add,{SELF},2,3,?1)!",
    "(^believe, {SELF}, <cat --> animal>, FALSE)!",
    "(^break,{t001})! %0.00;0.86%",
    "(^count,{SELF},{a,b,c,d},?1)!",
    "(^want,{SELF},<a --> b>)! %1.00;0.90%",
    "(^wonder,{SELF},<cat --> animal>)!",
    "(^go_to,{SELF},{t001}). :\\:",
    "(^open,{SELF},{t001}). :|:",
    "(^pick,key001). :\\:",
    "(^pick,key001). :|:",
    "(^pick,{SELF},key001). :|: %1.00;0.90%",
    "(^pick,{t002}). :\\:",
    "(^reflect,{SELF},<cat --> animal>,?1)!",
    "(^want,{SELF},<a --> b>). %1.00;0.90%",
    "(^want,{SELF},<a --> b>). :|: %1.00;0.90%",
    "(||,<robin --> [flying]>,<robin --> swimmer>).",
    "(||,<robin --> [flying]>,<robin --> swimmer>)?",
    "<#1 --> [unscrewing]>!",
    "<$x-->B>.",
    "<(&&, <<$x-->A>==><$x-->B>>, <<$y-->C>==><$y-->D>>) ==> E>.",
    "<(&&, A, B) ==> C>.",
    "<(&&,<#1 --> lock>,<#1 --> (/,open,$2,_)>) ==> <$2 --> key>>. %1.00;0.90%",
    "<(&&,<#1 --> lock>,<#1 --> (/,open,$2,_)>) ==> <$2 --> key>>. %1.00;0.90%",
    "<(&&,<$x --> [chirping]>,<$x --> [with_wings]>) ==> <$x --> bird>>.",
    "<(&&,<$x --> flyer>,<$x --> [chirping]>) ==> <$x --> bird>>.",
    "<(&&,<$x --> flyer>,<$x --> [chirping]>, <(*, $x, worms) --> food>) ==> <$x --> bird>>.",
    "<(&&,<$x --> flyer>,<(*,$x,worms) --> food>) ==> <$x --> bird>>.",
    "<(&&,<$x --> key>,<$y --> lock>) ==> <$y --> (/,open,$x,_)>>.",
    "<(&&,<robin --> [chirping]>,<robin --> [flying]>) ==> <robin --> bird>>.",
    "<(&&,<robin --> [chirping]>,<robin --> [flying]>,<robin --> [with_wings]>) ==> <robin --> bird>>.",
    "<(&&,<robin --> [flying]>,<robin --> [with_wings]>) ==> <robin --> [living]>>. %0.9%",
    "<(&&,<robin --> [flying]>,<robin --> bird>) ==> <robin --> [living]>>.",
    "<(&&,<robin --> bird>,<robin --> [living]>) ==> <robin --> animal>>.",
    "<(&&,<robin --> swimmer>,<robin --> [flying]>) ==> <robin --> bird>>.",
    "<(&,<{Tweety} --> bird>,<bird --> fly>) --> claimedByBob>.",
    "<(&,bird,swimmer) --> (&,animal,swimmer)>?",
    "<(&,light,[red]) --> traffic_signal>?",
    "<(&,swan,swimmer) --> bird>?",
    "<(&/, (||, S, P), +5) =/> M>. %0.9%",
    "<(&/, a, +1) =/> (&/, b, c)>.",
    "<(&/, a, +1) =/> b>.",
    "<(&/, b, c, +1) =/> d>.",
    "<(&/,(&|,<a --> #A>,<a2 --> #A>),+10,(^pick,{SELF},a),+10) =/> <a --> B>>.",
    "<(&/,(^go_to,{t003}),(^pick,{t002}),(^go_to,{t001}),(^open,{t001})) =/> <{t001} --> [opened]>>. :|:",
    "<(&/,<#1 --> A>,+10,(^pick,{SELF},#1),+10) =/> <a --> B>>.",
    "<(&/,<$1 --> A>,+10,(^pick,{SELF},$1),+10) =/> <$1 --> B>>.",
    "<(&/,<$1 --> A>,+100) =/> <$1 --> B>>. %1.00;0.90%",
    "<(&/,<$1 --> [pliable]>,(^reshape,{SELF},$1)) =/> <$1 --> [hardened]>>.",
    "<(&/,<(*, $x, key_101) --> hold>,+100) =/> <(*, $x, room_101) --> enter>>.",
    "<(&/,<(*, John, key_101) --> hold>,+100) =/> <(*, John, room_101) --> enter>>.",
    "<(&/,<(*,$1,plastic) --> made_of>,(^lighter,{SELF},$1)) =/> <$1 --> [heated]>>.",
    "<(&/,<(*,SELF,{t001}) --> at>,+100,(^open,{t001}))=/><{t001} --> [opened]>>. :|:",
    "<(&/,<(*,SELF,{t002}) --> hold>,<(*,SELF,{t001}) --> at>,(^open,{SELF},{t001})) =/> <{t001} --> [opened]>>. %1.00;0.90%",
    "<(&/,<(*,SELF,{t002}) --> hold>,<(*,SELF,{t001}) --> at>,<(*,{t001}) --> ^open>) =/> <{t001} --> [opened]>>.",
    "<(&/,<(*,SELF,{t002}) --> reachable>,(^pick,{t002}))=/><(*,SELF,{t002}) --> hold>>.",
    "<(&/,<(*,Self,key001) --> reachable>,(^pick,key001)) =/> <(*,Self,key001) --> hold>>.",
    "<(&/,<(*,Self,key001) --> reachable>,(^pick,key001)) =/> <(*,Self,key001) --> hold>>. %1.00;0.43%",
    "<(&/,<(*,Self,{t001}) --> at>,(^break,{t001})) =/> <{t001} --> [opened]>>.",
    "<(&/,<(*,Self,{t002}) --> hold>,(^go_to,{t001}),(^open,{t001})) =/> <{t001} --> [opened]>>.",
    "<(&/,<(*,Self,{t002}) --> reachable>,(^pick,{t002})) =/> <(*,Self,{t002}) --> hold>>.",
    "<(&/,<(*,Self,{t003}) --> at>,(^pick,{t002}),(^go_to,{t001}),(^open,{t001})) =/> <{t001} --> [opened]>>. :|:",
    "<(&/,<(*,{SELF},wolf) --> close_to>,+1000) =/> <{SELF} --> [hurt]>>.",
    "<(&/,<a --> #A>,+10,<a2 --> #A>,+10,(^pick,{SELF},a),+10) =/> <a --> B>>.",
    "<(&/,<a --> A>,+10) =/> <b --> B>>.",
    "<(&/,<a --> A>,+10,(^pick,{SELF},a),+10) =/> <#1 --> B>>.",
    "<(&/,<a --> A>,+10,(^pick,{SELF},a),+10) =/> <a --> B>>.",
    "<(&/,<a --> A>,+10,<x --> y>,+10,(^pick,{SELF},a),+10) =/> <a --> B>>.",
    "<(&|,(^want,{SELF},$1,FALSE),(^anticipate,{SELF},$1)) =|> <(*,{SELF},$1) --> afraid_of>>.",
    "<(&|,<(*,$1,#2) --> on>,<(*,SELF,#2) --> at>)=|><(*,SELF,$1) --> reachable>>.",
    "<(&|,<(*,$1,$2) --> on>,<(*,SELF,$2) --> at>) =|> <(*,SELF,$1) --> reachable>>.",
    "<(*, John, key_101) --> hold>. :\\:",
    "<(*,(*,(*,(*,(*,0))))) --> num>?",
    "<(*,(*,(*,0))) --> num>?",
    "<(*,Self,key001) --> hold>. :|:",
    "<(*,Self,key001) --> hold>. :|:",
    "<(*,Self,key001) --> hold>. :|: %1.00;0.81%",
    "<(*,Self,key001) --> hold>. :|: %0%",
    "<(*,Self,key001) --> hold>? :|:",
    "<(*,John,room_101) --> enter>. :\\: %1.00;0.90%",
    "<(*,SELF,{t001}) --> at>!",
    "<(*,SELF,{t001}) --> at>. :|:",
    "<(*,SELF,{t001}) --> at>. :|:",
    "<(*,SELF,{t002}) --> reachable>!",
    "<(*,Self,key001) --> hold>!",
    "<(*,Self,key001) --> hold>. :|: %1.00;0.73%",
    "<(*,a,b) --> like>. %1.00;0.90%",
    "<(*,acid,base) --> reaction>.",
    "<(*,bird,plant) --> ?x>?",
    "<(*,cat,[blue]) --> likes>?",
    "<(*,{Anna},{Bob}) --> Friends>. %1.00;0.99%",
    "<(*,{SELF},?what) --> afraid_of>?",
    "<(*,{SELF},wolf) --> close_to>. :|:",
    "<(*,{t002},{t003}) --> on>. :|:",
    "<(*,{t002},{t003}) --> on>. :|:",
    "<(*,{t003}) --> ^go_to>. :|:",
    "<(*,{tom},(&,[black],glasses)) --> own>.",
    "<(*,{tom},sunglasses) --> own>.",
    "<(*,{tom},{sky}) --> likes>.",
    "<(-,swimmer,animal) --> (-,swimmer,bird)>?",
    "<(--,<robin --> [flying]>) ==> <robin --> bird>>?",
    "<(--,<robin --> bird>) ==> <robin --> [flying]>>. %0.1%",
    "<(/,neutralization,_,base) --> ?x>?",
    "<(/,successor,(/,successor,0,_),_) --> number>?",
    "<(\\,(\\,REPRESENT,_,<(*,CAT,FISH) --> FOOD>),_,eat,fish) --> cat>.",
    "<(\\,REPRESENT,_,CAT) --> cat>. %1.00;0.90%",
    "<(\\,neutralization,_,base) --> acid>.",
    "<(\\,neutralization,acid,_) --> ?x>?",
    "<(^break,$1) =/> <$1 --> [damaged]>>.",
    "<(^go_to,$1) =/> <(*,Self,$1) --> at>>.",
    "<(^go_to,$1)=/><(*,SELF,$1) --> at>>.",
    "<(^go_to,{SELF},$1)=/><(*,{SELF},$1) --> at>>.",
    "<(^go_to,{t003})=/><(*,SELF,{t003}) --> at>>.",
    "<(^open,{SELF},{t001})=/><{t001} --> [opened]>>. :|:",
    "<(^pick,key001) =/> <(*,Self,key001) --> hold>>.",
    "<(^pick,key001) =/> <(*,Self,key001) --> hold>>. :\\: %1.00;0.45%",
    "<(^pick,key001) =/> <(*,Self,key001) --> hold>>. :\\: %1.00;0.90%",
    "<(^pick,key001) =/> <(*,Self,key001) --> hold>>. :|:",
    "<(^pick,key001) =/> <(*,Self,key001) --> hold>>. :|: %1.00;0.45%",
    "<(^pick,key001) =/> <(*,Self,key001) --> hold>>. :|: %1.00;0.81%",
    "<(^pick,{t002})=/><(*,SELF,{t002}) --> hold>>. :\\:",
    "<(|, boy, girl) --> youth>. %0.90%",
    "<(~, boy, girl) --> [strong]>. %0.90%",
    "<(~,swimmer, swan) --> bird>?",
    "<0 --> (/,num,_)>. %1.00;0.90%",
    "<a --> b>. %1.00;0.90%",
    "<a --> b>.",
    "<<$1 --> (/,livingIn,_,{graz})> ==> <$1 --> murder>>.",
    "<<$1 --> A> =/> <$1 --> B>>. %1.00;0.90%",
    "<<$1 --> [Drinks]> ==> <$1 --> [Cancer]>>. %0.8;0.9%",
    "<<$1 --> [aggressive]> ==> <$1 --> murder>>.",
    "<<$1 --> [hardened]> =/> <$1 --> [unscrewing]>>. %1.00;0.90%",
    "<<$1 --> [hardened]> =|> <$1 --> [unscrewing]>>.",
    "<<$1 --> [hardened]> =|> <$1 --> [unscrewing]>>. %1.00;0.90%",
    "<<$1 --> [heated]> =/> <$1 --> [melted]>>.",
    "<<$1 --> [melted]> <|> <$1 --> [pliable]>>.",
    "<<$1 --> [unscrewing]> =\\> <$1 --> [hardened]>>. %1.00;0.90%",
    "<<$1 --> lock> ==> (&&,<#2 --> key>,<$1 --> (/,open,#2,_)>)>. %1.00;0.90%",
    "<<$1 --> num> ==> <(*,$1) --> num>>. %1.00;0.90%",
    "<<$1 --> number> ==> <(/,successor,$1,_) --> number>>.",
    "<<$x --> animal> <=> <$x --> bird>>.",
    "<<$x --> bird> ==> <$x --> flyer>>.",
    "<<$y --> robin> ==> <$y --> bird>>.",
    "<<$x --> key> ==> <{lock1} --> (/,open,$x,_)>>.",
    "<<$x --> lock> ==> (&&,<#y --> key>,<$x --> (/,open,#y,_)>)>.",
    "<<$x --> swan> ==> <$x --> bird>>. %1.00;0.80%",
    "<<$x-->A>==><$y-->B>>.",
    "<<$y --> [with_wings]> ==> <$y --> flyer>>.",
    "<<$y --> flyer> ==> <$y --> [with_wings]>>.",
    "<<$y --> swan> ==> <$y --> swimmer>>. %0.80%",
    "<<(&,<#1 --> $2>,<$3 --> #1>) --> claimedByBob> ==> <<$3 --> $2> --> claimedByBob>>.",
    "<<(*, $x, door_101) --> open> =/> <(*, $x, room_101) --> enter>>. %0.9%",
    "<<(*, $x, door_101) --> open> =/> <(*, $x, room_101) --> enter>>. %0.95%",
    "<<(*, $x, room_101) --> enter> <|> <(*, $x, corridor_100) --> leave>>.",
    "<<(*, $y, door_101) --> open> =\\> <(*, $y, key_101) --> hold>>. %0.8%",
    "<<(*,$1) --> ^go_to> =/> <(*,SELF,$1) --> at>>.",
    "<<(*,$1,$2) --> Friends> ==>     (||,    (&&,<$1 --> [Smokes]>,<$2 --> [Smokes]>),    (&&,(--,<$1 --> [Smokes]>),(--,<$2 --> [Smokes]>)))>. %0.6;0.9%",
    "<<(*,$1,$2) --> like> <=> <(*,$2,$1) --> like>>?",
    "<<(*,$1,sunglasses) --> own> ==> <$1 --> [aggressive]>>.",
    "<<(*,John,door_101) --> open> =/> <(*,John,room_101) --> enter>>. :|:  %1.00;0.90%",
    "<<(*,John,key_101) --> hold> =/> <(*,John,room_101) --> enter>>.",
    "<<(*,John,key_101) --> hold> =/> <(*,John,room_101) --> enter>>. %1.00;0.90%",
    "<<(*,b,$1) --> like> ==> <(*,a,$1) --> like>>?",
    "<<bird --> $x> ==> <robin --> $x>>.",
    "<<lock1 --> (/,open,$1,_)> ==> <$1 --> key>>.",
    "<<lock1 --> (/,open,$1,_)> ==> <$1 --> key>>.",
    "<<lock1 --> (/,open,$1,_)> ==> <$1 --> key>>. %1.00;0.90%",
    "<<robin --> [flying]> ==> <robin --> [with_beak]>>. %0.90%",
    "<<robin --> [flying]> ==> <robin --> bird>>.",
    "<<robin --> [flying]> ==> <robin --> bird>>. %0.9%",
    "<<robin --> [flying]> ==> <robin --> bird>>. %0.00;0.60%",
    "<<robin --> animal> <=> <robin --> bird>>.",
    "<<robin --> bird> <=> <robin --> [flying]>>. %0.9%",
    "<<robin --> bird> ==> (&&,<robin --> animal>,<robin --> [flying]>)>. %0%",
    "<<robin --> bird> ==> <robin --> [flying]>>.",
    "<<robin --> bird> ==> <robin --> [flying]>>. %0.9%",
    "<<robin --> bird> ==> <robin --> animal>>.",
    "<<robin --> bird> ==> <robin --> animal>>. %0.70%",
    "<<robin --> bird> ==> <robin --> animal>>. %0.70;0.90%",
    "<<something --> [hardened]> =/> <something --> [unscrewing]>>. %1.00;0.90%",
    "<<something --> [hardened]> =|> <something --> [unscrewing]>>. %1.00;0.90%",
    "<<something --> [unscrewing]> =\\> <something --> [hardened]>>. %1.00;0.90%",
    "<<swimmer --> $y> ==> <robin --> $y>>. %0.70;0.90%",
    "<?1 --> swimmer>?",
    "<?1 =/> <c --> C>>?",
    "<?who --> [Cancer]>?",
    "<?x --> claimedByBob>?",
    "<A --> B>@",
    "<A <|> B>.",
    "<A =|> B>.",
    "<A-->B>.",
    "<A==>B>.",
    "<Birdie <-> Tweety>. %0.90%",
    "<John --> (/,open,_,door_101)>. :|:",
    "<S =/> M>. %0.9%",
    "<SELF --> (/,at,_,{t003})>. :\\:",
    "<Tweety {-- bird>?",
    "<Tweety {-- bird>.",
    "<Tweety {-] yellow>.",
    "<[bright] <-> [smart]>.",
    "<[red] --> traffic_signal>. %0.1%",
    "<[smart] --> [bright]>.",
    "<[smart] --> [bright]>?",
    "<a --> A>. :|:",
    "<a --> A>. :|: %1.00;0.90%",
    "<a --> B>!",
    "<a --> b>! %1.00;0.90%",
    "<a --> b>?",
    "<a-->A>. :|:",
    "<acid --> (/,reaction,_,base)>.",
    "<base --> (/,reaction,acid,_)>.",
    "<cup --> [bendable]>.",
    "<swan --> bird>.",
    "<bird --> swan>. %0.10%",
    "<bird --> animal>. %0.90;0.90%",
    "<swan --> bird>?",
    "<bird <-> swan>. %0.10%",
    "<bird <-> swan>?",
    "<c <-> t3>. %1.00;0.90%",
    "<cat --> (/,(/,REPRESENT,_,<(*,CAT,FISH) --> FOOD>),_,eat,fish)>.",
    "<swan --> bird>. %0.90%",
    "<gull <-> swan>.",
    "<neutralization --> (*,acid,base)>.",
    "<planetX --> {Mars,Pluto,Venus}>. %0.90%",
    "<planetX --> {Pluto,Saturn}>. %0.10%",
    "<raven --] black>.",
    "<robin --> (&,bird,swimmer)>. %0.90%",
    "<robin --> (-,bird,swimmer)>. %0.90%",
    "<robin --> (-,mammal,swimmer)>. %0.00;0.90%",
    "<robin --> (|,bird,swimmer)>.",
    "<robin --> [flying]>.",
    "<robin --> [flying]>. %0.9%",
    "<robin --> swimmer>. %0%",
    "<robin <-> swan>. %0.10;0.60%",
    "<something --> [unscrewing]>!",
    "<sunglasses --> (&,[black],glasses)>.",
    "<swan --> (-,swimmer,bird)>?",
    "<swan --> (|,bird,swimmer)>?",
    "<swan --> (|,bird,swimmer)>?",
    "<tim --> (/,uncle,_,tom)>. %1.00;0.90%",
    "<{?1} --> swimmer>?",
    "<{?who} --> murder>?",
    "<{Anna} --> [Drinks]>. %1.00;0.99%",
    "<{B,C} --> E>?",
    "<{Birdie} <-> {Tweety}>.",
    "<{Birdie} <-> {Tweety}>?",
    "<{Karl} --> boy>.",
    "<{John} --> (/,taller_than,{Tom},_)>.",
    "<{b1} --> fly>.",
    "<{M2} --> (/,called,_,cross)>.",
    "<{M3} --> (/,called,_,?what)>?",
    "<{SELF} --> [hurt]>! %0%",
    "<{SELF} --> [hurt]>. :|: %0%",
    "<{Tom} --> (/,taller_than,_,boy)>?",
    "<{sky} --> [blue]>.",
    "<{Tweety} --> {Birdie}>.",
    "<{bA} --> fly>?",
    "<{key1} --> (/,open,_,{lock1})>.",
    "<{key1} --> key>. %1.00;0.90%",
    "<{light_1} --> (&,light,[red])>.",
    "<{t001} --> [damaged]>!",
    "<{t001} --> [opened]>!",
    "<{t003} --> (/,at,SELF,_)>. :\\:",
    "<{t003} --> (/,on,{t002},_)>. :\\:",
    "<{t1,{t2,{c}}} --> [p1,[p2,[p3]]]>?",
    "<{t1,{t2,{t3}}} --> [p1,[p2,[p3]]]>. %1.00;0.90%",
    "<{tim} --> (/,livingIn,_,{graz})>.",
    "<{tim} --> (/,livingIn,_,{graz})>. %0%",
    "B.",
};
