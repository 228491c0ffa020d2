----------------------------- MODULE Logarithms -----------------------------
(* Binary logarithms of 1..512 times 100000, rounded.  MC_Summaries checks   *)
(* the table: it is additive and exact for powers of two.                    *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

LogTable == <<
    0, 100000, 158496, 200000, 232193, 258496, 280735, 300000, 316993, 332193, 345943, 358496,
    370044, 380735, 390689, 400000, 408746, 416993, 424793, 432193, 439232, 445943, 452356, 458496,
    464386, 470044, 475489, 480735, 485798, 490689, 495420, 500000, 504439, 508746, 512928, 516993,
    520945, 524793, 528540, 532193, 535755, 539232, 542626, 545943, 549185, 552356, 555459, 558496,
    561471, 564386, 567243, 570044, 572792, 575489, 578136, 580735, 583289, 585798, 588264, 590689,
    593074, 595420, 597728, 600000, 602237, 604439, 606609, 608746, 610852, 612928, 614975, 616993,
    618982, 620945, 622882, 624793, 626679, 628540, 630378, 632193, 633985, 635755, 637504, 639232,
    640939, 642626, 644294, 645943, 647573, 649185, 650779, 652356, 653916, 655459, 656986, 658496,
    659991, 661471, 662936, 664386, 665821, 667243, 668650, 670044, 671425, 672792, 674147, 675489,
    676818, 678136, 679442, 680735, 682018, 683289, 684549, 685798, 687036, 688264, 689482, 690689,
    691886, 693074, 694251, 695420, 696578, 697728, 698868, 700000, 701123, 702237, 703342, 704439,
    705528, 706609, 707682, 708746, 709803, 710852, 711894, 712928, 713955, 714975, 715987, 716993,
    717991, 718982, 719967, 720945, 721917, 722882, 723840, 724793, 725739, 726679, 727612, 728540,
    729462, 730378, 731288, 732193, 733092, 733985, 734873, 735755, 736632, 737504, 738370, 739232,
    740088, 740939, 741785, 742626, 743463, 744294, 745121, 745943, 746761, 747573, 748382, 749185,
    749985, 750779, 751570, 752356, 753138, 753916, 754689, 755459, 756224, 756986, 757743, 758496,
    759246, 759991, 760733, 761471, 762205, 762936, 763662, 764386, 765105, 765821, 766534, 767243,
    767948, 768650, 769349, 770044, 770736, 771425, 772110, 772792, 773471, 774147, 774819, 775489,
    776155, 776818, 777479, 778136, 778790, 779442, 780090, 780735, 781378, 782018, 782655, 783289,
    783920, 784549, 785175, 785798, 786419, 787036, 787652, 788264, 788874, 789482, 790087, 790689,
    791289, 791886, 792481, 793074, 793664, 794251, 794837, 795420, 796000, 796578, 797154, 797728,
    798299, 798868, 799435, 800000, 800562, 801123, 801681, 802237, 802791, 803342, 803892, 804439,
    804985, 805528, 806070, 806609, 807146, 807682, 808215, 808746, 809276, 809803, 810329, 810852,
    811374, 811894, 812412, 812928, 813443, 813955, 814466, 814975, 815482, 815987, 816491, 816993,
    817493, 817991, 818488, 818982, 819476, 819967, 820457, 820945, 821432, 821917, 822400, 822882,
    823362, 823840, 824317, 824793, 825267, 825739, 826209, 826679, 827146, 827612, 828077, 828540,
    829002, 829462, 829921, 830378, 830834, 831288, 831741, 832193, 832643, 833092, 833539, 833985,
    834430, 834873, 835315, 835755, 836194, 836632, 837069, 837504, 837938, 838370, 838802, 839232,
    839660, 840088, 840514, 840939, 841363, 841785, 842206, 842626, 843045, 843463, 843879, 844294,
    844708, 845121, 845533, 845943, 846352, 846761, 847168, 847573, 847978, 848382, 848784, 849185,
    849586, 849985, 850383, 850779, 851175, 851570, 851964, 852356, 852748, 853138, 853528, 853916,
    854303, 854689, 855075, 855459, 855842, 856224, 856605, 856986, 857365, 857743, 858120, 858496,
    858871, 859246, 859619, 859991, 860363, 860733, 861102, 861471, 861839, 862205, 862571, 862936,
    863300, 863662, 864024, 864386, 864746, 865105, 865464, 865821, 866178, 866534, 866888, 867243,
    867596, 867948, 868299, 868650, 869000, 869349, 869697, 870044, 870390, 870736, 871081, 871425,
    871768, 872110, 872451, 872792, 873132, 873471, 873809, 874147, 874483, 874819, 875154, 875489,
    875822, 876155, 876487, 876818, 877149, 877479, 877808, 878136, 878463, 878790, 879116, 879442,
    879766, 880090, 880413, 880735, 881057, 881378, 881698, 882018, 882337, 882655, 882972, 883289,
    883605, 883920, 884235, 884549, 884862, 885175, 885487, 885798, 886109, 886419, 886728, 887036,
    887344, 887652, 887958, 888264, 888570, 888874, 889178, 889482, 889785, 890087, 890388, 890689,
    890989, 891289, 891588, 891886, 892184, 892481, 892778, 893074, 893369, 893664, 893958, 894251,
    894544, 894837, 895128, 895420, 895710, 896000, 896290, 896578, 896867, 897154, 897441, 897728,
    898014, 898299, 898584, 898868, 899152, 899435, 899718, 900000
  >>
Log2(a) == LogTable[a]
=============================================================================
