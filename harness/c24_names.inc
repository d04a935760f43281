// written by tools/genc24.py
NAME("")
NAME("\141")
NAME("\142")
NAME("\141\142")
NAME("\142\141")
NAME("\141\057\142")
NAME("\057")
NAME("\143\157\165\156\164")
NAME("\155\141\151\156")
NAME("\146\157\157\040\141\156\144\040\142\141\162")
NAME("\061\062\063\064\065\066\067\070\071")
NAME("\124\150\145\040\155\165\164\145\170\040\151\163\040\154\157\143\153\145\144")
NAME("\150\303\251\154\154\157\040\344\270\226\347\225\214\040\360\237\230\200")
NAME("\045\163\045\156\134\042\047\077")
NAME("\040")
NAME("\040\040")
NAME("\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170")
NAME("\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170")
NAME("\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170\170")
NAME("\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171\171")
NAME("\267")
NAME("\143\327")
NAME("\226\057\070")
NAME("\053\062\054\254\257\030\265")
NAME("\302\047\317\265\111\272\355\305\004\161\170\336\271\375\243")
NAME("\036\010\205\054\366\176\276\331\162\257\116\200\364\377\026\260")
NAME("\303\102\330\235\051\257\124\366\117\024\213\247\136\252\345\011\355")
NAME("\067\121\127\346\277\022\120\031\077\253\231\315\050\322\332\376\176\335\111\105\220\277\107\355\063\030\224\177\311\050\250")
NAME("\045\124\173\063\254\233\372\311\042\172\202\103\203\304\072\211\314\077\026\242\043\103\121\245\213\247\073\145\065\314\117\150\022\171\135\325\124\101\307\060\277\224\324\160\130\340\343\100\350\140\011\017\337\164\264\121\161\163\312\304\027\012\025\376")
NAME("\124\267\151\320\141\212\200\224\207\151\332\146\327\071\111\116\140\114\046\127\277\351\021\315\225\245\316\005\352\104\355\214\004\262\246\154\147\242\145\350\113\105\164\142\256\303\140\122\340\271\003\146\351\005\174\167\313\022\054\311\074\331\041\210\250\347\227\067\362\163\043\055\324\015\035\324\026\016\075\360\007\217\370\264\176\015\057\351\126\314\120\033\336\057\035\045\310\202\304\025\231\315\206\200\206\265\117\102\260\250\354\165\166\246\141\152\353\376\251\331\276\326\050\130\025\061\210\050\057\042\161\370\130\111\366\337\332\074\245\237\043\100\032\117\374\300\244\234\233\363\346\075\354\106\167\021\061\067\141\374\240\221\317\172\227\130\376\303\165\261\340\050\335\014\357\055\054\322\061\274\324\072\004\074\107\117\172\256\240\300\225\076\345\125\104\075\113\363\172\216")
NAME("\111\361\010\076\131\242\231\222\114\357\071\136\326\073\314\322\357\364\311\203\145\126\024\026\134\162\330\355\164\134\366\163\171\221\152\075\011\034\052\205\010\370\306\340\310\116\243\311\213\325\022\226\251\135\373\063\352\265\304\260\234\067\134\045\363\036\246\325\206\343\067\205\101\235\242\266\137\051\110\205\332\163\112\337\342\052\111\331\225\045\142\235\005\345\331\024\076\174\353\002\100\203\306\175\365\366\305\175\044\351\212\273\073\330\232\132\363\031\233\244\247\035\130\241\274\056\252\233\374\305\073\367\225\064\130\055\232\154\074\372\301\102\367\172\373\142\220\020\170\213\136\117\063\171\330\276\313\253\275\077\375\246\053\212\323\304\332\001\363\110\341\255\044\217\023\202\210\210\300\237\077\275\354\326\164\310\241\351\121\224\062\054\001\137\233\335\370\306\172\237\014\041\253\052\130\250\110\155\365\061\245\371\040\074\160\356\334\240\114\365\363\307\267\064\173\073\070\335\105\160\047\201\221\300\311\233\074\271\314\206\036\107\035\271\003\041\134\272\223\314\152\045\207\001\134\353\241\060\152\211\353\113\255\044\323\103\370\023\066\331\032\306\157\311\116\046\232\123\272\031\342\332\074\372\150\363\076\330\052\235\313\200\343\036\300\011\031\237\350\367\107\374\153\160\206\171\342\032\111\136\274\371\232\233\160\145\144\344\051\353\046\372\115\324\376\031\322\171\003\322\302\333\045\005\224\312\354\306\350\246\344\340\377\162\242\343\011\102\023\254\057\231\112\352\147\054\140\343\040\224\307\230\101\037\246\134\300\204\124\302\101\257\316\245\222\266\211\133\252\126\370\373\046\254\373\220\075\370\042\336\045\271\073\373\154\143\151\355\336\224\033\156\102\147\373\015\117\344\146\372\065\141\036\363\107\042\061\167\331\377\331\242\124\051\305\243\221\007\070\271\054\227\122\245\026\255\054\031\217\342\215\304\367\345\227\074\255\073\063\271\132\355\204\222\161\077\242\162\304\076\353\174\335\366\114\256\226\064\374\353\211\341\316\150\352\001\016\253\124\044\041\061\351\320\147\330\053\066\111\035\377\116\132\363\171\371\101\122\025\322\042\125\020\152\165\204\157\165\265\301\326\121\340\362\044\366\217\345\045\303\114\014\144\023\145\322\330\143\155\033\051\075\232\007\103\107\350\056\034\257\050\021\041\114\006\311\064\025\175\234\026\346\242\074\343\277\261\272\315\367\151\333\051\241\105\155\107\137\266\040\036\016\047\245\140\111\373\051\170\173\254\046\317\243\036\364\372\140\104\011\125\053\105\121\305\344\170\363\053\234\171\146\366\031\112\327\003\007\264\103\024\274\170\262\330\060\272\376\063\250\346\261\030\074\234\314\044\007\052\233\305\006\163\312\027\230\264\222\223\140\251\311\227\011\061\050\035\004\271\241\304\021\221\002\006\333\147\121\303\136\370\325\035\137\051\330\153\376\007\034\242\075\155\003\016\104\125\230\306\374\333\314\124\271\212\046\030\356\056\157\061\307\332\062\065\372\110\143\310\113\016\335\144\253\075\147\222\164\133\276\233\142\371\210\304\200\354\147\042\132\361\103\170\314\366\251\225\055\107\053\051\145\247\231\037\202\235\246\237\264\367\114\125\022\363\251\304\213\162\126\246\343\377\046\165\036\273\241\227\143\030\250\123\030\341\175\314\236\240\160\161\046\136\025\153\120\215\113\345\342\140\022\114\300\230\365\313\205\206\053\012\235\330\356\155\152\013\273\022\066\360\103\122\133\221\234\274\361\065\052\345\013\313\102\033\246\305\257\121\212\116\271\340\174\242\051\012\366\232\127\322\002\260\054\203\103\213\270\364\115\257\055\172\261\147\251\357\251\264\105\335\351\026\245\333\171\335\353\063\075\365\115\124\224\215\225\101\217\301\031\160\302\062\373\262\135\324\325\147\041\030\035\074\230\040\360\145\221\104\074\076\047\336\353\001\265\072\376\353\104\374\303\210\054\003\041\325\146\153\132\232\304\242\156\040\122\164\343\262\335\220\163\106\307\343\025\236\120\021\341\356\200\260\035\105\071\113\344\371\143\245\377\112\373\202\226\267\334\314\133\115\313\227\017\115\175\326\005\041\105\046\360\156\241\013\015\251\327\060\340\365\114\162\045\045\361\306\146\227\010\015\161\177\232\236\275\306\311\240\172\121\044\027\160\015\355\036\135\151\304")
NAME("\145\353\050\201\177\324\042")
NAME("\277\264\006\330\036\334\034\262\275\177\130")
NAME("\261\103\302\040\331")
NAME("\036\114\060\006")
NAME("\156\265\250\375\122\245")
NAME("\212\015\046\177\273\330\226\265\166\350\330")
NAME("\363\232\054\010\005")
NAME("\243\224\253\201\103\114")
NAME("\102\233\162\111\027\331\176\220\346\115\342")
NAME("\057\153\145\152\037\176\063\207")
NAME("\314")
NAME("\121\272")
NAME("\105\201\255\146\176\255\102\212\252\135")
NAME("\071\062\234\106\103\201\156\076")
NAME("\160\137\065\362\030\050\160\312")
NAME("\053\311\013\261\326\217\304\147")
NAME("\346\251\113\132\141")
NAME("\333\353\316\006\363\111\127\215\274")
NAME("\354\035\267\003\130\336\357\015\320")
NAME("\014")
NAME("\104\371\132\316\237\263\164\024")
NAME("\331\167\104\074")
NAME("\024\275\310\172")
NAME("\327\333\026\073\014\170\056\304")
NAME("\173\107")
NAME("\137\026\005\060\272\115\320\262")
NAME("\067\177\135\227\213\375\033")
NAME("\062\005\216\267")
NAME("\077\350\071\337\232")
NAME("\051\364\176\311\005\323\207\134")
NAME("\324\204\052\355\326\251\142")
NAME("\170\026\107\170\105\222\131")
NAME("\341\177\170")
NAME("\125\124\370\165\312")
NAME("\016\104\202\306\361\114\146\227\001\201")
NAME("\206\276\104\302\037\246\152\152\271\157")
NAME("\036\323")
NAME("\376\113\037\026\043")
NAME("\010\207\136\241\301\332\137")
NAME("\102\054\165\374")
NAME("\001")
NAME("\003")
NAME("\005")
NAME("\007")
NAME("\011")
NAME("\013")
NAME("\015")
NAME("\017")
NAME("\021")
NAME("\023")
NAME("\025")
NAME("\027")
NAME("\031")
NAME("\033")
NAME("\035")
NAME("\037")
NAME("\041")
NAME("\043")
NAME("\045")
NAME("\047")
NAME("\051")
NAME("\053")
NAME("\055")
NAME("\061")
NAME("\063")
NAME("\065")
NAME("\067")
NAME("\071")
NAME("\073")
NAME("\075")
NAME("\077")
NAME("\101")
NAME("\103")
NAME("\105")
NAME("\107")
NAME("\111")
NAME("\113")
NAME("\115")
NAME("\117")
NAME("\121")
NAME("\123")
NAME("\125")
NAME("\127")
NAME("\131")
NAME("\133")
NAME("\135")
NAME("\137")
NAME("\143")
NAME("\145")
NAME("\147")
NAME("\151")
NAME("\153")
NAME("\155")
NAME("\157")
NAME("\161")
NAME("\163")
NAME("\165")
NAME("\167")
NAME("\171")
NAME("\173")
NAME("\175")
NAME("\177")
NAME("\201")
NAME("\203")
NAME("\205")
NAME("\207")
NAME("\211")
NAME("\213")
NAME("\215")
NAME("\217")
NAME("\221")
NAME("\223")
NAME("\225")
NAME("\227")
NAME("\231")
NAME("\233")
NAME("\235")
NAME("\237")
NAME("\241")
NAME("\243")
NAME("\245")
NAME("\247")
NAME("\251")
NAME("\253")
NAME("\255")
NAME("\257")
NAME("\261")
NAME("\263")
NAME("\265")
NAME("\271")
NAME("\273")
NAME("\275")
NAME("\277")
NAME("\301")
NAME("\303")
NAME("\305")
NAME("\307")
NAME("\311")
NAME("\313")
NAME("\315")
NAME("\317")
NAME("\321")
NAME("\323")
NAME("\325")
NAME("\327")
NAME("\331")
NAME("\333")
NAME("\335")
NAME("\337")
NAME("\341")
NAME("\343")
NAME("\345")
NAME("\347")
NAME("\351")
NAME("\353")
NAME("\355")
NAME("\357")
NAME("\361")
NAME("\363")
NAME("\365")
NAME("\367")
NAME("\371")
NAME("\373")
NAME("\375")
NAME("\377")
