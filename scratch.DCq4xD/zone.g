zone. SOA y0 x 2147483648 2044 4294967295 621670 215
$TTL 24059840

 TXT *cc -x ya

; x0
 TXT cy aba

b. TXT x xx0
$TTL 2147483648
 A -0b0 c ca
cy.z*z. NS ccc
az A -c bbz
$ORIGIN c*.czc.
 NS yy -
@ NS a*cy x*
@ A ca -zyb cz-
@ TXT -xx-


@ A -by
 TXT y0za
zbc TXT y-c ca
; 0yx
@ TXT 0by* 0cc yx
$ORIGIN za.y--z.
0b. TXT 0cx *z vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
c00c. TXT zc0b
y* TXT a - 0-
$TTL 2147483648
*.z. A c-z
@ NS z yaz a
; bx
 A xca0
 TXT c-0

@ A x*-- z-b *x
@ NS az -0by
@ A b
c-xa.y. A 0ab zyy 0bab
ac.yxac. TXT z
 TXT ycay 0zzc
 A --b zbab az
@ NS a -za
@ A cc x**0
0. A xy
$ORIGIN c.y*-.
0c.zzz. A a0x ayc
; cy
*. NS x0*y
zcyy. NS a c-xz b0-b
by0 A 0
$ORIGIN *.xxy.
z*0a.zb. TXT y cy0
$TTL 9
@ TXT * by
-- TXT 0 -x** yb
$TTL 728994
; xby
$ORIGIN -.
 A -
; zz
$ORIGIN y.b0-0.
@ A a0bb a0
 TXT ybyb x 0a-

; bc
z.c. A b
c-y TXT * x
$TTL 13577
ya0* A x aby
$TTL 2147483648
0azc.cz-c. NS yc-a
 NS 0ax
@ A x
 NS z-b*
@ A *xy -ccx
@ A *yx- c y0z
x*bz TXT 0aa-
xyx* NS czc b- zc
 A xzcb *b c-
$ORIGIN b.
zxxc.zcb. TXT 0ab
--*y. A c z bx
; y
; y
b0-* TXT -zy
*cb. NS x *xy
 NS ayc- c0
@ TXT baba
c. NS z0- z 0cy-
ccz NS yxy xbby z
; z*
; -
@ NS y** ca-
$ORIGIN y0a.
x.bcax. A ba *cc
@ A a-a 0

 NS 0 0*0a ycz
@ TXT cxy
@ TXT b y
$ORIGIN **y.0yz.
$ORIGIN c-0.
cz A **c zcax
; *b
 A -a babz
; y0c
 TXT 0
ab*. TXT b0c -
@ NS a
 TXT ycc
zy TXT y*
 A z00y
y.0*-c. TXT b yyc x
; ybc
*a. A z a
@ NS 0ya- -** -
*xx*.zyzz. NS 0x- *
@ A yb0
; bxb0
@ NS a yxz
@ A z0* 0cb0

$TTL 0
$TTL 712184
- NS cz-
 TXT -cb 0 c-
 NS 0z0 b x-
 NS czxa y-yc

ba A z c
@ NS xc b*a* 0
$ORIGIN bx.c.
$TTL 2147483648
@ NS -ay
a*x TXT x0-
@ TXT c-a* zzz

 TXT *xyb
a A *ya
y A z
 NS bzx0 x0y
; yab
*-a* A xy **c-
@ A z ac
b**.yc. NS x *
@ A abzz
$TTL 4075
@ NS x -cz z0
$TTL 36904826
@ A x*ax 0-*
 TXT yc x x-*c
$ORIGIN yxc.*cxz.
$TTL 344684294
 NS cy
@ NS 0
acza TXT y c* bz
aa. NS bb0*
-. A -a-y y
$TTL 37
x. A yc b-ac bz-
@ A ax-* 0
x*00.bzaz. TXT ax*0 * zbyz
 NS yxx y
 A xb 0yb
$TTL 50836881
 NS *0a0 b
ca TXT a
; *0z
*.*b. NS a *yz
 TXT xz -
$TTL 1
$ORIGIN cz.
$TTL 11
z*. NS 0ya
 A axzx az
cccx TXT zb
 NS *z y-ba ax0-

-c. TXT yz acy z
$ORIGIN b.
; *

@ NS z -0*z
$ORIGIN c0b.ay.
$ORIGIN x0.x0xb.
@ TXT 0y0- -xx x
@ NS 00 0 bb--
@ TXT xzzc zxx0 0
cz*x. TXT y0z
$ORIGIN 0zcy.x0.
$TTL 2147483648
a TXT 0c c* -xz*
cyb. TXT --a ya cc
 A czcx *
y TXT vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv z aby
$ORIGIN -b.z.
; *
@ NS czc
aczc NS ca
 A *-
; xz
 A y a-
0c.0. A *- a- zya
*. A *
x0 A yx
 A **z xac
 NS yb*c a cba

$ORIGIN a00.yc.
*-.a*z. A aa
$ORIGIN b.*cy.
$TTL 1226
$ORIGIN -.
*x.y-yb. A 0bcy axbc
; b-0


x.a. NS 0
y. NS b0c
-c TXT 0b0
 A x
@ TXT 0a c0b*
 NS 0*0
; xy
-y.*. A xxb c z
ba. NS x0 x zya
$TTL 4294967295
$ORIGIN z.
 NS b
@ TXT bz
 TXT 0z0c *a
z.*. A *b0 *bc z
@ A bz byc* 00
 A -bc0 c
$TTL 2147483648
0cb. NS -
@ A 0by ya 0c*z
$TTL 1330
 A -y
$ORIGIN bz.
a0.a. A z*a* xxxy y
z.x0-. A -cba bx
$ORIGIN az.
; zzya
aa.z. NS a zcy
@ A cx x* xc--
b A c0x 0b 0b
; xcb
; ccb
y**a.y0*c. NS azy0 0c-0 yyz
 NS xc -
; az0-
@ TXT baz- z0ac
-. TXT a
@ NS yc ccaz 0xc
*.-*x. NS bbab xx

$TTL 3908
c*. A *bx 0 x
 TXT zy0
*a.0. A z*ay x

0 NS *a *x b-y
@ TXT c b *yc0
$TTL 670878496
by0c.y-0. NS cazb cbzx *x0-
@ TXT c
zbyy TXT 0bzz

 TXT az y-*c 0x
$ORIGIN a.
x. A ** xz xz-0
y A 0
; a*
x TXT 00z y-b
 TXT c
$TTL 22790
yzc A cx zzx0
a0y. TXT -
$ORIGIN a.
a. A *abx cy0 b
@ A zy0* - a-*
@ TXT -b* xbz
; zxxz
* A y
$TTL 4846

; *czz
$ORIGIN 0z.
b NS zxyx - a
; byyb
xac A cb xc0
a.a. NS -
@ TXT cxcz
$TTL 62658051
 NS -bc
0 A *c
ya TXT -0b- vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
yczb. NS *bcz
f. TXT x301
f. TXT x302
f. TXT x303
f. TXT x304
f. TXT x305
f. TXT x306
f. TXT x307
f. TXT x308
f. TXT x309
f. TXT x310
f. TXT x311
f. TXT x312
f. TXT x313
f. TXT x314
f. TXT x315
f. TXT x316
f. TXT x317
f. TXT x318
f. TXT x319
yyz NS 0x ax*b
f. TXT x321
f. TXT x322
f. TXT x323
f. TXT x324
f. TXT x325
f. TXT x326
f. TXT x327
f. TXT x328
f. TXT x329
f. TXT x330
f. TXT x331
f. TXT x332
f. TXT x333
f. TXT x334
f. TXT x335
f. TXT x336
f. TXT x337
f. TXT x338
f. TXT x339
f. TXT x340
f. TXT x341
f. TXT x342
f. TXT x343
f. TXT x344
f. TXT x345
f. TXT x346
f. TXT x347
f. TXT x348
f. TXT x349
f. TXT x350
f. TXT x351
f. TXT x352
f. TXT x353
f. TXT x354
f. TXT x355
f. TXT x356
f. TXT x357
f. TXT x358
f. TXT x359
f. TXT x360
f. TXT x361
f. TXT x362
f. TXT x363
f. TXT x364
f. TXT x365
f. TXT x366
f. TXT x367
f. TXT x368
f. TXT x369
f. TXT x370
f. TXT x371
f. TXT x372
f. TXT x373
f. TXT x374
f. TXT x375
f. TXT x376
f. TXT x377
f. TXT x378
f. TXT x379
f. TXT x380
f. TXT x381
f. TXT x382
f. TXT x383
0b-b.-. TXT -0- 0b
f. TXT x385
f. TXT x386
f. TXT x387
f. TXT x388
f. TXT x389
f. TXT x390
f. TXT x391
f. TXT x392
f. TXT x393
f. TXT x394
f. TXT x395
f. TXT x396
f. TXT x397
f. TXT x398
f. TXT x399
f. TXT x400
f. TXT x401
f. TXT x402
f. TXT x403
f. TXT x404
f. TXT x405
f. TXT x406
f. TXT x407
f. TXT x408
f. TXT x409
f. TXT x410
f. TXT x411
f. TXT x412
f. TXT x413
f. TXT x414
f. TXT x415
f. TXT x416
f. TXT x417
f. TXT x418
f. TXT x419
f. TXT x420
f. TXT x421
f. TXT x422
f. TXT x423
f. TXT x424
f. TXT x425
f. TXT x426
f. TXT x427
f. TXT x428
f. TXT x429
f. TXT x430
f. TXT x431
f. TXT x432
f. TXT x433
f. TXT x434
f. TXT x435
f. TXT x436
f. TXT x437
f. TXT x438
f. TXT x439
f. TXT x440
f. TXT x441
f. TXT x442
f. TXT x443
f. TXT x444
f. TXT x445
f. TXT x446
f. TXT x447
z NS ayc xa- *zx
f. TXT x449
f. TXT x450
f. TXT x451
f. TXT x452
f. TXT x453
f. TXT x454
f. TXT x455
f. TXT x456
f. TXT x457
f. TXT x458
f. TXT x459
f. TXT x460
f. TXT x461
f. TXT x462
f. TXT x463
f. TXT x464
f. TXT x465
f. TXT x466
f. TXT x467
f. TXT x468
f. TXT x469
f. TXT x470
f. TXT x471
f. TXT x472
f. TXT x473
f. TXT x474
f. TXT x475
f. TXT x476
f. TXT x477
f. TXT x478
f. TXT x479
f. TXT x480
f. TXT x481
f. TXT x482
f. TXT x483
f. TXT x484
f. TXT x485
f. TXT x486
f. TXT x487
f. TXT x488
f. TXT x489
f. TXT x490
f. TXT x491
f. TXT x492
f. TXT x493
f. TXT x494
f. TXT x495
f. TXT x496
f. TXT x497
f. TXT x498
f. TXT x499
f. TXT x500
f. TXT x501
f. TXT x502
f. TXT x503
f. TXT x504
f. TXT x505
f. TXT x506
f. TXT x507
f. TXT x508
f. TXT x509
f. TXT x510
f. TXT x511
@ TXT c* ca*0 xx
f. TXT x513
f. TXT x514
f. TXT x515
f. TXT x516
f. TXT x517
f. TXT x518
f. TXT x519
f. TXT x520
f. TXT x521
f. TXT x522
f. TXT x523
f. TXT x524
f. TXT x525
f. TXT x526
f. TXT x527
f. TXT x528
f. TXT x529
f. TXT x530
f. TXT x531
f. TXT x532
f. TXT x533
f. TXT x534
f. TXT x535
f. TXT x536
f. TXT x537
f. TXT x538
f. TXT x539
f. TXT x540
f. TXT x541
f. TXT x542
f. TXT x543
f. TXT x544
f. TXT x545
f. TXT x546
f. TXT x547
f. TXT x548
f. TXT x549
f. TXT x550
f. TXT x551
f. TXT x552
f. TXT x553
f. TXT x554
f. TXT x555
f. TXT x556
f. TXT x557
f. TXT x558
f. TXT x559
f. TXT x560
f. TXT x561
f. TXT x562
f. TXT x563
f. TXT x564
f. TXT x565
f. TXT x566
f. TXT x567
f. TXT x568
f. TXT x569
f. TXT x570
f. TXT x571
f. TXT x572
f. TXT x573
f. TXT x574
f. TXT x575
; -
f. TXT x577
f. TXT x578
f. TXT x579
f. TXT x580
f. TXT x581
f. TXT x582
f. TXT x583
f. TXT x584
f. TXT x585
f. TXT x586
f. TXT x587
f. TXT x588
f. TXT x589
f. TXT x590
f. TXT x591
f. TXT x592
f. TXT x593
f. TXT x594
f. TXT x595
f. TXT x596
f. TXT x597
f. TXT x598
f. TXT x599
f. TXT x600
f. TXT x601
f. TXT x602
f. TXT x603
f. TXT x604
f. TXT x605
f. TXT x606
f. TXT x607
f. TXT x608
f. TXT x609
f. TXT x610
f. TXT x611
f. TXT x612
f. TXT x613
f. TXT x614
f. TXT x615
f. TXT x616
f. TXT x617
f. TXT x618
f. TXT x619
f. TXT x620
f. TXT x621
f. TXT x622
f. TXT x623
f. TXT x624
f. TXT x625
f. TXT x626
f. TXT x627
f. TXT x628
f. TXT x629
f. TXT x630
f. TXT x631
f. TXT x632
f. TXT x633
f. TXT x634
f. TXT x635
f. TXT x636
f. TXT x637
f. TXT x638
f. TXT x639
$TTL 614
f. TXT x641
f. TXT x642
f. TXT x643
f. TXT x644
f. TXT x645
f. TXT x646
f. TXT x647
f. TXT x648
f. TXT x649
f. TXT x650
f. TXT x651
f. TXT x652
f. TXT x653
f. TXT x654
f. TXT x655
f. TXT x656
f. TXT x657
f. TXT x658
f. TXT x659
f. TXT x660
f. TXT x661
f. TXT x662
f. TXT x663
f. TXT x664
f. TXT x665
f. TXT x666
f. TXT x667
f. TXT x668
f. TXT x669
f. TXT x670
f. TXT x671
f. TXT x672
f. TXT x673
f. TXT x674
f. TXT x675
f. TXT x676
f. TXT x677
f. TXT x678
f. TXT x679
f. TXT x680
f. TXT x681
f. TXT x682
f. TXT x683
f. TXT x684
f. TXT x685
f. TXT x686
f. TXT x687
f. TXT x688
f. TXT x689
f. TXT x690
f. TXT x691
f. TXT x692
f. TXT x693
f. TXT x694
f. TXT x695
f. TXT x696
f. TXT x697
f. TXT x698
f. TXT x699
f. TXT x700
f. TXT x701
f. TXT x702
f. TXT x703

f. TXT x705
f. TXT x706
f. TXT x707
f. TXT x708
f. TXT x709
f. TXT x710
f. TXT x711
f. TXT x712
f. TXT x713
f. TXT x714
f. TXT x715
f. TXT x716
f. TXT x717
f. TXT x718
f. TXT x719
f. TXT x720
f. TXT x721
f. TXT x722
f. TXT x723
f. TXT x724
f. TXT x725
f. TXT x726
f. TXT x727
f. TXT x728
f. TXT x729
f. TXT x730
f. TXT x731
f. TXT x732
f. TXT x733
f. TXT x734
f. TXT x735
f. TXT x736
f. TXT x737
f. TXT x738
f. TXT x739
f. TXT x740
f. TXT x741
f. TXT x742
f. TXT x743
f. TXT x744
f. TXT x745
f. TXT x746
f. TXT x747
f. TXT x748
f. TXT x749
f. TXT x750
f. TXT x751
f. TXT x752
f. TXT x753
f. TXT x754
f. TXT x755
f. TXT x756
f. TXT x757
f. TXT x758
f. TXT x759
f. TXT x760
f. TXT x761
f. TXT x762
f. TXT x763
f. TXT x764
f. TXT x765
f. TXT x766
f. TXT x767
 NS yab
f. TXT x769
f. TXT x770
f. TXT x771
f. TXT x772
f. TXT x773
f. TXT x774
f. TXT x775
f. TXT x776
f. TXT x777
f. TXT x778
f. TXT x779
f. TXT x780
f. TXT x781
f. TXT x782
f. TXT x783
f. TXT x784
f. TXT x785
f. TXT x786
f. TXT x787
f. TXT x788
f. TXT x789
f. TXT x790
f. TXT x791
f. TXT x792
f. TXT x793
f. TXT x794
f. TXT x795
f. TXT x796
f. TXT x797
f. TXT x798
f. TXT x799
f. TXT x800
f. TXT x801
f. TXT x802
f. TXT x803
f. TXT x804
f. TXT x805
f. TXT x806
f. TXT x807
f. TXT x808
f. TXT x809
f. TXT x810
f. TXT x811
f. TXT x812
f. TXT x813
f. TXT x814
f. TXT x815
f. TXT x816
f. TXT x817
f. TXT x818
f. TXT x819
f. TXT x820
f. TXT x821
f. TXT x822
f. TXT x823
f. TXT x824
f. TXT x825
f. TXT x826
f. TXT x827
f. TXT x828
f. TXT x829
f. TXT x830
f. TXT x831

f. TXT x833
f. TXT x834
f. TXT x835
f. TXT x836
f. TXT x837
f. TXT x838
f. TXT x839
f. TXT x840
f. TXT x841
f. TXT x842
f. TXT x843
f. TXT x844
f. TXT x845
f. TXT x846
f. TXT x847
f. TXT x848
f. TXT x849
f. TXT x850
f. TXT x851
f. TXT x852
f. TXT x853
f. TXT x854
f. TXT x855
f. TXT x856
f. TXT x857
f. TXT x858
f. TXT x859
f. TXT x860
f. TXT x861
f. TXT x862
f. TXT x863
f. TXT x864
f. TXT x865
f. TXT x866
f. TXT x867
f. TXT x868
f. TXT x869
f. TXT x870
f. TXT x871
f. TXT x872
f. TXT x873
f. TXT x874
f. TXT x875
f. TXT x876
f. TXT x877
f. TXT x878
f. TXT x879
f. TXT x880
f. TXT x881
f. TXT x882
f. TXT x883
f. TXT x884
f. TXT x885
f. TXT x886
f. TXT x887
f. TXT x888
f. TXT x889
f. TXT x890
f. TXT x891
f. TXT x892
f. TXT x893
f. TXT x894
f. TXT x895
@ A ay0- vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
f. TXT x897
f. TXT x898
f. TXT x899
f. TXT x900
f. TXT x901
f. TXT x902
f. TXT x903
f. TXT x904
f. TXT x905
f. TXT x906
f. TXT x907
f. TXT x908
f. TXT x909
f. TXT x910
f. TXT x911
f. TXT x912
f. TXT x913
f. TXT x914
f. TXT x915
f. TXT x916
f. TXT x917
f. TXT x918
f. TXT x919
f. TXT x920
f. TXT x921
f. TXT x922
f. TXT x923
f. TXT x924
f. TXT x925
f. TXT x926
f. TXT x927
f. TXT x928
f. TXT x929
f. TXT x930
f. TXT x931
f. TXT x932
f. TXT x933
f. TXT x934
f. TXT x935
f. TXT x936
f. TXT x937
f. TXT x938
f. TXT x939
f. TXT x940
f. TXT x941
f. TXT x942
f. TXT x943
f. TXT x944
f. TXT x945
f. TXT x946
f. TXT x947
f. TXT x948
f. TXT x949
f. TXT x950
f. TXT x951
f. TXT x952
f. TXT x953
f. TXT x954
f. TXT x955
f. TXT x956
f. TXT x957
f. TXT x958
f. TXT x959
; --z
f. TXT x961
f. TXT x962
f. TXT x963
f. TXT x964
f. TXT x965
f. TXT x966
f. TXT x967
f. TXT x968
f. TXT x969
f. TXT x970
f. TXT x971
f. TXT x972
f. TXT x973
f. TXT x974
f. TXT x975
f. TXT x976
f. TXT x977
f. TXT x978
f. TXT x979
f. TXT x980
f. TXT x981
f. TXT x982
f. TXT x983
f. TXT x984
f. TXT x985
f. TXT x986
f. TXT x987
f. TXT x988
f. TXT x989
f. TXT x990
f. TXT x991
f. TXT x992
f. TXT x993
f. TXT x994
f. TXT x995
f. TXT x996
f. TXT x997
f. TXT x998
f. TXT x999
f. TXT x1000
f. TXT x1001
f. TXT x1002
f. TXT x1003
f. TXT x1004
f. TXT x1005
f. TXT x1006
f. TXT x1007
f. TXT x1008
f. TXT x1009
f. TXT x1010
f. TXT x1011
f. TXT x1012
f. TXT x1013
f. TXT x1014
f. TXT x1015
f. TXT x1016
f. TXT x1017
f. TXT x1018
f. TXT x1019
f. TXT x1020
f. TXT x1021
f. TXT x1022
f. TXT x1023
$TTL 23
f. TXT x1025
f. TXT x1026
f. TXT x1027
f. TXT x1028
f. TXT x1029
f. TXT x1030
f. TXT x1031
f. TXT x1032
f. TXT x1033
f. TXT x1034
f. TXT x1035
f. TXT x1036
f. TXT x1037
f. TXT x1038
f. TXT x1039
f. TXT x1040
f. TXT x1041
f. TXT x1042
f. TXT x1043
f. TXT x1044
f. TXT x1045
f. TXT x1046
f. TXT x1047
f. TXT x1048
f. TXT x1049
f. TXT x1050
f. TXT x1051
f. TXT x1052
f. TXT x1053
f. TXT x1054
f. TXT x1055
f. TXT x1056
f. TXT x1057
f. TXT x1058
f. TXT x1059
f. TXT x1060
f. TXT x1061
f. TXT x1062
f. TXT x1063
f. TXT x1064
f. TXT x1065
f. TXT x1066
f. TXT x1067
f. TXT x1068
f. TXT x1069
f. TXT x1070
f. TXT x1071
f. TXT x1072
f. TXT x1073
f. TXT x1074
f. TXT x1075
f. TXT x1076
f. TXT x1077
f. TXT x1078
f. TXT x1079
f. TXT x1080
f. TXT x1081
f. TXT x1082
f. TXT x1083
f. TXT x1084
f. TXT x1085
f. TXT x1086
f. TXT x1087
; b*a
f. TXT x1089
f. TXT x1090
f. TXT x1091
f. TXT x1092
f. TXT x1093
f. TXT x1094
f. TXT x1095
f. TXT x1096
f. TXT x1097
f. TXT x1098
f. TXT x1099
f. TXT x1100
f. TXT x1101
f. TXT x1102
f. TXT x1103
f. TXT x1104
f. TXT x1105
f. TXT x1106
f. TXT x1107
f. TXT x1108
f. TXT x1109
f. TXT x1110
f. TXT x1111
f. TXT x1112
f. TXT x1113
f. TXT x1114
f. TXT x1115
f. TXT x1116
f. TXT x1117
f. TXT x1118
f. TXT x1119
f. TXT x1120
f. TXT x1121
f. TXT x1122
f. TXT x1123
f. TXT x1124
f. TXT x1125
f. TXT x1126
f. TXT x1127
f. TXT x1128
f. TXT x1129
f. TXT x1130
f. TXT x1131
f. TXT x1132
f. TXT x1133
f. TXT x1134
f. TXT x1135
f. TXT x1136
f. TXT x1137
f. TXT x1138
f. TXT x1139
f. TXT x1140
f. TXT x1141
f. TXT x1142
f. TXT x1143
f. TXT x1144
f. TXT x1145
f. TXT x1146
f. TXT x1147
f. TXT x1148
f. TXT x1149
f. TXT x1150
f. TXT x1151
xb.za00. NS ab
f. TXT x1153
f. TXT x1154
f. TXT x1155
f. TXT x1156
f. TXT x1157
f. TXT x1158
f. TXT x1159
f. TXT x1160
f. TXT x1161
f. TXT x1162
f. TXT x1163
f. TXT x1164
f. TXT x1165
f. TXT x1166
f. TXT x1167
f. TXT x1168
f. TXT x1169
f. TXT x1170
f. TXT x1171
f. TXT x1172
f. TXT x1173
f. TXT x1174
f. TXT x1175
f. TXT x1176
f. TXT x1177
f. TXT x1178
f. TXT x1179
f. TXT x1180
f. TXT x1181
f. TXT x1182
f. TXT x1183
f. TXT x1184
f. TXT x1185
f. TXT x1186
f. TXT x1187
f. TXT x1188
f. TXT x1189
f. TXT x1190
f. TXT x1191
f. TXT x1192
f. TXT x1193
f. TXT x1194
f. TXT x1195
f. TXT x1196
f. TXT x1197
f. TXT x1198
f. TXT x1199
f. TXT x1200
f. TXT x1201
f. TXT x1202
f. TXT x1203
f. TXT x1204
f. TXT x1205
f. TXT x1206
f. TXT x1207
f. TXT x1208
f. TXT x1209
f. TXT x1210
f. TXT x1211
f. TXT x1212
f. TXT x1213
f. TXT x1214
f. TXT x1215
-cay A xc0
f. TXT x1217
f. TXT x1218
f. TXT x1219
f. TXT x1220
f. TXT x1221
f. TXT x1222
f. TXT x1223
f. TXT x1224
f. TXT x1225
f. TXT x1226
f. TXT x1227
f. TXT x1228
f. TXT x1229
f. TXT x1230
f. TXT x1231
f. TXT x1232
f. TXT x1233
f. TXT x1234
f. TXT x1235
f. TXT x1236
f. TXT x1237
f. TXT x1238
f. TXT x1239
f. TXT x1240
f. TXT x1241
f. TXT x1242
f. TXT x1243
f. TXT x1244
f. TXT x1245
f. TXT x1246
f. TXT x1247
f. TXT x1248
f. TXT x1249
f. TXT x1250
f. TXT x1251
f. TXT x1252
f. TXT x1253
f. TXT x1254
f. TXT x1255
f. TXT x1256
f. TXT x1257
f. TXT x1258
f. TXT x1259
f. TXT x1260
f. TXT x1261
f. TXT x1262
f. TXT x1263
f. TXT x1264
f. TXT x1265
f. TXT x1266
f. TXT x1267
f. TXT x1268
f. TXT x1269
f. TXT x1270
f. TXT x1271
f. TXT x1272
f. TXT x1273
f. TXT x1274
f. TXT x1275
f. TXT x1276
f. TXT x1277
f. TXT x1278
f. TXT x1279
*zc* A zz z ya
f. TXT x1281
f. TXT x1282
f. TXT x1283
f. TXT x1284
f. TXT x1285
f. TXT x1286
f. TXT x1287
f. TXT x1288
f. TXT x1289
f. TXT x1290
f. TXT x1291
f. TXT x1292
f. TXT x1293
f. TXT x1294
f. TXT x1295
f. TXT x1296
f. TXT x1297
f. TXT x1298
f. TXT x1299
f. TXT x1300
f. TXT x1301
f. TXT x1302
f. TXT x1303
f. TXT x1304
f. TXT x1305
f. TXT x1306
f. TXT x1307
f. TXT x1308
f. TXT x1309
f. TXT x1310
f. TXT x1311
f. TXT x1312
f. TXT x1313
f. TXT x1314
f. TXT x1315
f. TXT x1316
f. TXT x1317
f. TXT x1318
f. TXT x1319
f. TXT x1320
f. TXT x1321
f. TXT x1322
f. TXT x1323
f. TXT x1324
f. TXT x1325
f. TXT x1326
f. TXT x1327
f. TXT x1328
f. TXT x1329
f. TXT x1330
f. TXT x1331
f. TXT x1332
f. TXT x1333
f. TXT x1334
f. TXT x1335
f. TXT x1336
f. TXT x1337
f. TXT x1338
f. TXT x1339
f. TXT x1340
f. TXT x1341
f. TXT x1342
f. TXT x1343
*z0- TXT 0c-y *-
f. TXT x1345
f. TXT x1346
f. TXT x1347
f. TXT x1348
f. TXT x1349
f. TXT x1350
f. TXT x1351
f. TXT x1352
f. TXT x1353
f. TXT x1354
f. TXT x1355
f. TXT x1356
f. TXT x1357
f. TXT x1358
f. TXT x1359
f. TXT x1360
f. TXT x1361
f. TXT x1362
f. TXT x1363
f. TXT x1364
f. TXT x1365
f. TXT x1366
f. TXT x1367
f. TXT x1368
f. TXT x1369
f. TXT x1370
f. TXT x1371
f. TXT x1372
f. TXT x1373
f. TXT x1374
f. TXT x1375
f. TXT x1376
f. TXT x1377
f. TXT x1378
f. TXT x1379
f. TXT x1380
f. TXT x1381
f. TXT x1382
f. TXT x1383
f. TXT x1384
f. TXT x1385
f. TXT x1386
f. TXT x1387
f. TXT x1388
f. TXT x1389
f. TXT x1390
f. TXT x1391
f. TXT x1392
f. TXT x1393
f. TXT x1394
f. TXT x1395
f. TXT x1396
f. TXT x1397
f. TXT x1398
f. TXT x1399
f. TXT x1400
f. TXT x1401
f. TXT x1402
f. TXT x1403
f. TXT x1404
f. TXT x1405
f. TXT x1406
f. TXT x1407
 NS vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv *bbz -0zx
f. TXT x1409
f. TXT x1410
f. TXT x1411
f. TXT x1412
f. TXT x1413
f. TXT x1414
f. TXT x1415
f. TXT x1416
f. TXT x1417
f. TXT x1418
f. TXT x1419
f. TXT x1420
f. TXT x1421
f. TXT x1422
f. TXT x1423
f. TXT x1424
f. TXT x1425
f. TXT x1426
f. TXT x1427
f. TXT x1428
f. TXT x1429
f. TXT x1430
f. TXT x1431
f. TXT x1432
f. TXT x1433
f. TXT x1434
f. TXT x1435
f. TXT x1436
f. TXT x1437
f. TXT x1438
f. TXT x1439
f. TXT x1440
f. TXT x1441
f. TXT x1442
f. TXT x1443
f. TXT x1444
f. TXT x1445
f. TXT x1446
f. TXT x1447
f. TXT x1448
f. TXT x1449
f. TXT x1450
f. TXT x1451
f. TXT x1452
f. TXT x1453
f. TXT x1454
f. TXT x1455
f. TXT x1456
f. TXT x1457
f. TXT x1458
f. TXT x1459
f. TXT x1460
f. TXT x1461
f. TXT x1462
f. TXT x1463
f. TXT x1464
f. TXT x1465
f. TXT x1466
f. TXT x1467
f. TXT x1468
f. TXT x1469
f. TXT x1470
f. TXT x1471
b0ax.b. A cc* x **b0
f. TXT x1473
f. TXT x1474
f. TXT x1475
f. TXT x1476
f. TXT x1477
f. TXT x1478
f. TXT x1479
f. TXT x1480
f. TXT x1481
f. TXT x1482
f. TXT x1483
f. TXT x1484
f. TXT x1485
f. TXT x1486
f. TXT x1487
f. TXT x1488
f. TXT x1489
f. TXT x1490
f. TXT x1491
f. TXT x1492
f. TXT x1493
f. TXT x1494
f. TXT x1495
f. TXT x1496
f. TXT x1497
f. TXT x1498
f. TXT x1499
f. TXT x1500
f. TXT x1501
f. TXT x1502
f. TXT x1503
f. TXT x1504
f. TXT x1505
f. TXT x1506
f. TXT x1507
f. TXT x1508
f. TXT x1509
f. TXT x1510
f. TXT x1511
f. TXT x1512
f. TXT x1513
f. TXT x1514
f. TXT x1515
f. TXT x1516
f. TXT x1517
f. TXT x1518
f. TXT x1519
f. TXT x1520
f. TXT x1521
f. TXT x1522
f. TXT x1523
f. TXT x1524
f. TXT x1525
f. TXT x1526
f. TXT x1527
f. TXT x1528
f. TXT x1529
f. TXT x1530
f. TXT x1531
f. TXT x1532
f. TXT x1533
f. TXT x1534
f. TXT x1535
@ A *-0
f. TXT x1537
f. TXT x1538
f. TXT x1539
f. TXT x1540
f. TXT x1541
f. TXT x1542
f. TXT x1543
f. TXT x1544
f. TXT x1545
f. TXT x1546
f. TXT x1547
f. TXT x1548
f. TXT x1549
f. TXT x1550
f. TXT x1551
f. TXT x1552
f. TXT x1553
f. TXT x1554
f. TXT x1555
f. TXT x1556
f. TXT x1557
f. TXT x1558
f. TXT x1559
f. TXT x1560
f. TXT x1561
f. TXT x1562
f. TXT x1563
f. TXT x1564
f. TXT x1565
f. TXT x1566
f. TXT x1567
f. TXT x1568
f. TXT x1569
f. TXT x1570
f. TXT x1571
f. TXT x1572
f. TXT x1573
f. TXT x1574
f. TXT x1575
f. TXT x1576
f. TXT x1577
f. TXT x1578
f. TXT x1579
f. TXT x1580
f. TXT x1581
f. TXT x1582
f. TXT x1583
f. TXT x1584
f. TXT x1585
f. TXT x1586
f. TXT x1587
f. TXT x1588
f. TXT x1589
f. TXT x1590
f. TXT x1591
f. TXT x1592
f. TXT x1593
f. TXT x1594
f. TXT x1595
f. TXT x1596
f. TXT x1597
f. TXT x1598
f. TXT x1599
$TTL 224632
f. TXT x1601
f. TXT x1602
f. TXT x1603
f. TXT x1604
f. TXT x1605
f. TXT x1606
f. TXT x1607
f. TXT x1608
f. TXT x1609
f. TXT x1610
f. TXT x1611
f. TXT x1612
f. TXT x1613
f. TXT x1614
f. TXT x1615
f. TXT x1616
f. TXT x1617
f. TXT x1618
f. TXT x1619
f. TXT x1620
f. TXT x1621
f. TXT x1622
f. TXT x1623
f. TXT x1624
f. TXT x1625
f. TXT x1626
f. TXT x1627
f. TXT x1628
f. TXT x1629
f. TXT x1630
f. TXT x1631
f. TXT x1632
f. TXT x1633
f. TXT x1634
f. TXT x1635
f. TXT x1636
f. TXT x1637
f. TXT x1638
f. TXT x1639
f. TXT x1640
f. TXT x1641
f. TXT x1642
f. TXT x1643
f. TXT x1644
f. TXT x1645
f. TXT x1646
f. TXT x1647
f. TXT x1648
f. TXT x1649
f. TXT x1650
f. TXT x1651
f. TXT x1652
f. TXT x1653
f. TXT x1654
f. TXT x1655
f. TXT x1656
f. TXT x1657
f. TXT x1658
f. TXT x1659
f. TXT x1660
f. TXT x1661
f. TXT x1662
f. TXT x1663

f. TXT x1665
f. TXT x1666
f. TXT x1667
f. TXT x1668
f. TXT x1669
f. TXT x1670
f. TXT x1671
f. TXT x1672
f. TXT x1673
f. TXT x1674
f. TXT x1675
f. TXT x1676
f. TXT x1677
f. TXT x1678
f. TXT x1679
f. TXT x1680
f. TXT x1681
f. TXT x1682
f. TXT x1683
f. TXT x1684
f. TXT x1685
f. TXT x1686
f. TXT x1687
f. TXT x1688
f. TXT x1689
f. TXT x1690
f. TXT x1691
f. TXT x1692
f. TXT x1693
f. TXT x1694
f. TXT x1695
f. TXT x1696
f. TXT x1697
f. TXT x1698
f. TXT x1699
f. TXT x1700
f. TXT x1701
f. TXT x1702
f. TXT x1703
f. TXT x1704
f. TXT x1705
f. TXT x1706
f. TXT x1707
f. TXT x1708
f. TXT x1709
f. TXT x1710
f. TXT x1711
f. TXT x1712
f. TXT x1713
f. TXT x1714
f. TXT x1715
f. TXT x1716
f. TXT x1717
f. TXT x1718
f. TXT x1719
f. TXT x1720
f. TXT x1721
f. TXT x1722
f. TXT x1723
f. TXT x1724
f. TXT x1725
f. TXT x1726
f. TXT x1727
$TTL 2147483648
f. TXT x1729
f. TXT x1730
f. TXT x1731
f. TXT x1732
f. TXT x1733
f. TXT x1734
f. TXT x1735
f. TXT x1736
f. TXT x1737
f. TXT x1738
f. TXT x1739
f. TXT x1740
f. TXT x1741
f. TXT x1742
f. TXT x1743
f. TXT x1744
f. TXT x1745
f. TXT x1746
f. TXT x1747
f. TXT x1748
f. TXT x1749
f. TXT x1750
f. TXT x1751
f. TXT x1752
f. TXT x1753
f. TXT x1754
f. TXT x1755
f. TXT x1756
f. TXT x1757
f. TXT x1758
f. TXT x1759
f. TXT x1760
f. TXT x1761
f. TXT x1762
f. TXT x1763
f. TXT x1764
f. TXT x1765
f. TXT x1766
f. TXT x1767
f. TXT x1768
f. TXT x1769
f. TXT x1770
f. TXT x1771
f. TXT x1772
f. TXT x1773
f. TXT x1774
f. TXT x1775
f. TXT x1776
f. TXT x1777
f. TXT x1778
f. TXT x1779
f. TXT x1780
f. TXT x1781
f. TXT x1782
f. TXT x1783
f. TXT x1784
f. TXT x1785
f. TXT x1786
f. TXT x1787
f. TXT x1788
f. TXT x1789
f. TXT x1790
f. TXT x1791
@ TXT cyby z*cb a
f. TXT x1793
f. TXT x1794
f. TXT x1795
f. TXT x1796
f. TXT x1797
f. TXT x1798
f. TXT x1799
f. TXT x1800
f. TXT x1801
f. TXT x1802
f. TXT x1803
f. TXT x1804
f. TXT x1805
f. TXT x1806
f. TXT x1807
f. TXT x1808
f. TXT x1809
f. TXT x1810
f. TXT x1811
f. TXT x1812
f. TXT x1813
f. TXT x1814
f. TXT x1815
f. TXT x1816
f. TXT x1817
f. TXT x1818
f. TXT x1819
f. TXT x1820
f. TXT x1821
f. TXT x1822
f. TXT x1823
f. TXT x1824
f. TXT x1825
f. TXT x1826
f. TXT x1827
f. TXT x1828
f. TXT x1829
f. TXT x1830
f. TXT x1831
f. TXT x1832
f. TXT x1833
f. TXT x1834
f. TXT x1835
f. TXT x1836
f. TXT x1837
f. TXT x1838
f. TXT x1839
f. TXT x1840
f. TXT x1841
f. TXT x1842
f. TXT x1843
f. TXT x1844
f. TXT x1845
f. TXT x1846
f. TXT x1847
f. TXT x1848
f. TXT x1849
f. TXT x1850
f. TXT x1851
f. TXT x1852
f. TXT x1853
f. TXT x1854
f. TXT x1855
 TXT yzx*
f. TXT x1857
f. TXT x1858
f. TXT x1859
f. TXT x1860
f. TXT x1861
f. TXT x1862
f. TXT x1863
f. TXT x1864
f. TXT x1865
f. TXT x1866
f. TXT x1867
f. TXT x1868
f. TXT x1869
f. TXT x1870
f. TXT x1871
f. TXT x1872
f. TXT x1873
f. TXT x1874
f. TXT x1875
f. TXT x1876
f. TXT x1877
f. TXT x1878
f. TXT x1879
f. TXT x1880
f. TXT x1881
f. TXT x1882
f. TXT x1883
f. TXT x1884
f. TXT x1885
f. TXT x1886
f. TXT x1887
f. TXT x1888
f. TXT x1889
f. TXT x1890
f. TXT x1891
f. TXT x1892
f. TXT x1893
f. TXT x1894
f. TXT x1895
f. TXT x1896
f. TXT x1897
f. TXT x1898
f. TXT x1899
f. TXT x1900
f. TXT x1901
f. TXT x1902
f. TXT x1903
f. TXT x1904
f. TXT x1905
f. TXT x1906
f. TXT x1907
f. TXT x1908
f. TXT x1909
f. TXT x1910
f. TXT x1911
f. TXT x1912
f. TXT x1913
f. TXT x1914
f. TXT x1915
f. TXT x1916
f. TXT x1917
f. TXT x1918
f. TXT x1919
b NS x
f. TXT x1921
f. TXT x1922
f. TXT x1923
f. TXT x1924
f. TXT x1925
f. TXT x1926
f. TXT x1927
f. TXT x1928
f. TXT x1929
f. TXT x1930
f. TXT x1931
f. TXT x1932
f. TXT x1933
f. TXT x1934
f. TXT x1935
f. TXT x1936
f. TXT x1937
f. TXT x1938
f. TXT x1939
f. TXT x1940
f. TXT x1941
f. TXT x1942
f. TXT x1943
f. TXT x1944
f. TXT x1945
f. TXT x1946
f. TXT x1947
f. TXT x1948
f. TXT x1949
f. TXT x1950
f. TXT x1951
f. TXT x1952
f. TXT x1953
f. TXT x1954
f. TXT x1955
f. TXT x1956
f. TXT x1957
f. TXT x1958
f. TXT x1959
f. TXT x1960
f. TXT x1961
f. TXT x1962
f. TXT x1963
f. TXT x1964
f. TXT x1965
f. TXT x1966
f. TXT x1967
f. TXT x1968
f. TXT x1969
f. TXT x1970
f. TXT x1971
f. TXT x1972
f. TXT x1973
f. TXT x1974
f. TXT x1975
f. TXT x1976
f. TXT x1977
f. TXT x1978
f. TXT x1979
f. TXT x1980
f. TXT x1981
f. TXT x1982
f. TXT x1983
zbc A cc -a*
f. TXT x1985
f. TXT x1986
f. TXT x1987
f. TXT x1988
f. TXT x1989
f. TXT x1990
f. TXT x1991
f. TXT x1992
f. TXT x1993
f. TXT x1994
f. TXT x1995
f. TXT x1996
f. TXT x1997
f. TXT x1998
f. TXT x1999
f. TXT x2000
f. TXT x2001
f. TXT x2002
f. TXT x2003
f. TXT x2004
f. TXT x2005
f. TXT x2006
f. TXT x2007
f. TXT x2008
f. TXT x2009
f. TXT x2010
f. TXT x2011
f. TXT x2012
f. TXT x2013
f. TXT x2014
f. TXT x2015
f. TXT x2016
f. TXT x2017
f. TXT x2018
f. TXT x2019
f. TXT x2020
f. TXT x2021
f. TXT x2022
f. TXT x2023
f. TXT x2024
f. TXT x2025
f. TXT x2026
f. TXT x2027
f. TXT x2028
f. TXT x2029
f. TXT x2030
f. TXT x2031
f. TXT x2032
f. TXT x2033
f. TXT x2034
f. TXT x2035
f. TXT x2036
f. TXT x2037
f. TXT x2038
f. TXT x2039
f. TXT x2040
f. TXT x2041
f. TXT x2042
f. TXT x2043
f. TXT x2044
f. TXT x2045
f. TXT x2046
f. TXT x2047
0c A -xaz
f. TXT x2049
f. TXT x2050
f. TXT x2051
f. TXT x2052
f. TXT x2053
f. TXT x2054
f. TXT x2055
f. TXT x2056
f. TXT x2057
f. TXT x2058
f. TXT x2059
f. TXT x2060
f. TXT x2061
f. TXT x2062
f. TXT x2063
f. TXT x2064
f. TXT x2065
f. TXT x2066
f. TXT x2067
f. TXT x2068
f. TXT x2069
f. TXT x2070
f. TXT x2071
f. TXT x2072
f. TXT x2073
f. TXT x2074
f. TXT x2075
f. TXT x2076
f. TXT x2077
f. TXT x2078
f. TXT x2079
f. TXT x2080
f. TXT x2081
f. TXT x2082
f. TXT x2083
f. TXT x2084
f. TXT x2085
f. TXT x2086
f. TXT x2087
f. TXT x2088
f. TXT x2089
f. TXT x2090
f. TXT x2091
f. TXT x2092
f. TXT x2093
f. TXT x2094
f. TXT x2095
f. TXT x2096
f. TXT x2097
f. TXT x2098
f. TXT x2099
f. TXT x2100
f. TXT x2101
f. TXT x2102
f. TXT x2103
f. TXT x2104
f. TXT x2105
f. TXT x2106
f. TXT x2107
f. TXT x2108
f. TXT x2109
f. TXT x2110
f. TXT x2111
ya A z -*
f. TXT x2113
f. TXT x2114
f. TXT x2115
f. TXT x2116
f. TXT x2117
f. TXT x2118
f. TXT x2119
f. TXT x2120
f. TXT x2121
f. TXT x2122
f. TXT x2123
f. TXT x2124
f. TXT x2125
f. TXT x2126
f. TXT x2127
f. TXT x2128
f. TXT x2129
f. TXT x2130
f. TXT x2131
f. TXT x2132
f. TXT x2133
f. TXT x2134
f. TXT x2135
f. TXT x2136
f. TXT x2137
f. TXT x2138
f. TXT x2139
f. TXT x2140
f. TXT x2141
f. TXT x2142
f. TXT x2143
f. TXT x2144
f. TXT x2145
f. TXT x2146
f. TXT x2147
f. TXT x2148
f. TXT x2149
f. TXT x2150
f. TXT x2151
f. TXT x2152
f. TXT x2153
f. TXT x2154
f. TXT x2155
f. TXT x2156
f. TXT x2157
f. TXT x2158
f. TXT x2159
f. TXT x2160
f. TXT x2161
f. TXT x2162
f. TXT x2163
f. TXT x2164
f. TXT x2165
f. TXT x2166
f. TXT x2167
f. TXT x2168
f. TXT x2169
f. TXT x2170
f. TXT x2171
f. TXT x2172
f. TXT x2173
f. TXT x2174
f. TXT x2175
*aaa. A *z by
f. TXT x2177
f. TXT x2178
f. TXT x2179
f. TXT x2180
f. TXT x2181
f. TXT x2182
f. TXT x2183
f. TXT x2184
f. TXT x2185
f. TXT x2186
f. TXT x2187
f. TXT x2188
f. TXT x2189
f. TXT x2190
f. TXT x2191
f. TXT x2192
f. TXT x2193
f. TXT x2194
f. TXT x2195
f. TXT x2196
f. TXT x2197
f. TXT x2198
f. TXT x2199
f. TXT x2200
f. TXT x2201
f. TXT x2202
f. TXT x2203
f. TXT x2204
f. TXT x2205
f. TXT x2206
f. TXT x2207
f. TXT x2208
f. TXT x2209
f. TXT x2210
f. TXT x2211
f. TXT x2212
f. TXT x2213
f. TXT x2214
f. TXT x2215
f. TXT x2216
f. TXT x2217
f. TXT x2218
f. TXT x2219
f. TXT x2220
f. TXT x2221
f. TXT x2222
f. TXT x2223
f. TXT x2224
f. TXT x2225
f. TXT x2226
f. TXT x2227
f. TXT x2228
f. TXT x2229
f. TXT x2230
f. TXT x2231
f. TXT x2232
f. TXT x2233
f. TXT x2234
f. TXT x2235
f. TXT x2236
f. TXT x2237
f. TXT x2238
f. TXT x2239
@ A zbyx 0- xcz*
f. TXT x2241
f. TXT x2242
f. TXT x2243
f. TXT x2244
f. TXT x2245
f. TXT x2246
f. TXT x2247
f. TXT x2248
f. TXT x2249
f. TXT x2250
f. TXT x2251
f. TXT x2252
f. TXT x2253
f. TXT x2254
f. TXT x2255
f. TXT x2256
f. TXT x2257
f. TXT x2258
f. TXT x2259
f. TXT x2260
f. TXT x2261
f. TXT x2262
f. TXT x2263
f. TXT x2264
f. TXT x2265
f. TXT x2266
f. TXT x2267
f. TXT x2268
f. TXT x2269
f. TXT x2270
f. TXT x2271
f. TXT x2272
f. TXT x2273
f. TXT x2274
f. TXT x2275
f. TXT x2276
f. TXT x2277
f. TXT x2278
f. TXT x2279
f. TXT x2280
f. TXT x2281
f. TXT x2282
f. TXT x2283
f. TXT x2284
f. TXT x2285
f. TXT x2286
f. TXT x2287
f. TXT x2288
f. TXT x2289
f. TXT x2290
f. TXT x2291
f. TXT x2292
f. TXT x2293
f. TXT x2294
f. TXT x2295
f. TXT x2296
f. TXT x2297
f. TXT x2298
f. TXT x2299
f. TXT x2300
f. TXT x2301
f. TXT x2302
f. TXT x2303

f. TXT x2305
f. TXT x2306
f. TXT x2307
f. TXT x2308
f. TXT x2309
f. TXT x2310
f. TXT x2311
f. TXT x2312
f. TXT x2313
f. TXT x2314
f. TXT x2315
f. TXT x2316
f. TXT x2317
f. TXT x2318
f. TXT x2319
f. TXT x2320
f. TXT x2321
f. TXT x2322
f. TXT x2323
f. TXT x2324
f. TXT x2325
f. TXT x2326
f. TXT x2327
f. TXT x2328
f. TXT x2329
f. TXT x2330
f. TXT x2331
f. TXT x2332
f. TXT x2333
f. TXT x2334
f. TXT x2335
f. TXT x2336
f. TXT x2337
f. TXT x2338
f. TXT x2339
f. TXT x2340
f. TXT x2341
f. TXT x2342
f. TXT x2343
f. TXT x2344
f. TXT x2345
f. TXT x2346
f. TXT x2347
f. TXT x2348
f. TXT x2349
f. TXT x2350
f. TXT x2351
f. TXT x2352
f. TXT x2353
f. TXT x2354
f. TXT x2355
f. TXT x2356
f. TXT x2357
f. TXT x2358
f. TXT x2359
f. TXT x2360
f. TXT x2361
f. TXT x2362
f. TXT x2363
f. TXT x2364
f. TXT x2365
f. TXT x2366
f. TXT x2367
ycyb. A -c0- 00-
f. TXT x2369
f. TXT x2370
f. TXT x2371
f. TXT x2372
f. TXT x2373
f. TXT x2374
f. TXT x2375
f. TXT x2376
f. TXT x2377
f. TXT x2378
f. TXT x2379
f. TXT x2380
f. TXT x2381
f. TXT x2382
f. TXT x2383
f. TXT x2384
f. TXT x2385
f. TXT x2386
f. TXT x2387
f. TXT x2388
f. TXT x2389
f. TXT x2390
f. TXT x2391
f. TXT x2392
f. TXT x2393
f. TXT x2394
f. TXT x2395
f. TXT x2396
f. TXT x2397
f. TXT x2398
f. TXT x2399
f. TXT x2400
f. TXT x2401
f. TXT x2402
f. TXT x2403
f. TXT x2404
f. TXT x2405
f. TXT x2406
f. TXT x2407
f. TXT x2408
f. TXT x2409
f. TXT x2410
f. TXT x2411
f. TXT x2412
f. TXT x2413
f. TXT x2414
f. TXT x2415
f. TXT x2416
f. TXT x2417
f. TXT x2418
f. TXT x2419
f. TXT x2420
f. TXT x2421
f. TXT x2422
f. TXT x2423
f. TXT x2424
f. TXT x2425
f. TXT x2426
f. TXT x2427
f. TXT x2428
f. TXT x2429
f. TXT x2430
f. TXT x2431
x* NS *ya xx
f. TXT x2433
f. TXT x2434
f. TXT x2435
f. TXT x2436
f. TXT x2437
f. TXT x2438
f. TXT x2439
f. TXT x2440
f. TXT x2441
f. TXT x2442
f. TXT x2443
f. TXT x2444
f. TXT x2445
f. TXT x2446
f. TXT x2447
f. TXT x2448
f. TXT x2449
f. TXT x2450
f. TXT x2451
f. TXT x2452
f. TXT x2453
f. TXT x2454
f. TXT x2455
f. TXT x2456
f. TXT x2457
f. TXT x2458
f. TXT x2459
f. TXT x2460
f. TXT x2461
f. TXT x2462
f. TXT x2463
f. TXT x2464
f. TXT x2465
f. TXT x2466
f. TXT x2467
f. TXT x2468
f. TXT x2469
f. TXT x2470
f. TXT x2471
f. TXT x2472
f. TXT x2473
f. TXT x2474
f. TXT x2475
f. TXT x2476
f. TXT x2477
f. TXT x2478
f. TXT x2479
f. TXT x2480
f. TXT x2481
f. TXT x2482
f. TXT x2483
f. TXT x2484
f. TXT x2485
f. TXT x2486
f. TXT x2487
f. TXT x2488
f. TXT x2489
f. TXT x2490
f. TXT x2491
f. TXT x2492
f. TXT x2493
f. TXT x2494
f. TXT x2495
@ NS ax-
f. TXT x2497
f. TXT x2498
f. TXT x2499
f. TXT x2500
f. TXT x2501
f. TXT x2502
f. TXT x2503
f. TXT x2504
f. TXT x2505
f. TXT x2506
f. TXT x2507
f. TXT x2508
f. TXT x2509
f. TXT x2510
f. TXT x2511
f. TXT x2512
f. TXT x2513
f. TXT x2514
f. TXT x2515
f. TXT x2516
f. TXT x2517
f. TXT x2518
f. TXT x2519
f. TXT x2520
f. TXT x2521
f. TXT x2522
f. TXT x2523
f. TXT x2524
f. TXT x2525
f. TXT x2526
f. TXT x2527
f. TXT x2528
f. TXT x2529
f. TXT x2530
f. TXT x2531
f. TXT x2532
f. TXT x2533
f. TXT x2534
f. TXT x2535
f. TXT x2536
f. TXT x2537
f. TXT x2538
f. TXT x2539
f. TXT x2540
f. TXT x2541
f. TXT x2542
f. TXT x2543
f. TXT x2544
f. TXT x2545
f. TXT x2546
f. TXT x2547
f. TXT x2548
f. TXT x2549
f. TXT x2550
f. TXT x2551
f. TXT x2552
f. TXT x2553
f. TXT x2554
f. TXT x2555
f. TXT x2556
f. TXT x2557
f. TXT x2558
f. TXT x2559
*zc A * cxy cxzc
f. TXT x2561
f. TXT x2562
f. TXT x2563
f. TXT x2564
f. TXT x2565
f. TXT x2566
f. TXT x2567
f. TXT x2568
f. TXT x2569
f. TXT x2570
f. TXT x2571
f. TXT x2572
f. TXT x2573
f. TXT x2574
f. TXT x2575
f. TXT x2576
f. TXT x2577
f. TXT x2578
f. TXT x2579
f. TXT x2580
f. TXT x2581
f. TXT x2582
f. TXT x2583
f. TXT x2584
f. TXT x2585
f. TXT x2586
f. TXT x2587
f. TXT x2588
f. TXT x2589
f. TXT x2590
f. TXT x2591
f. TXT x2592
f. TXT x2593
f. TXT x2594
f. TXT x2595
f. TXT x2596
f. TXT x2597
f. TXT x2598
f. TXT x2599
f. TXT x2600
f. TXT x2601
f. TXT x2602
f. TXT x2603
f. TXT x2604
f. TXT x2605
f. TXT x2606
f. TXT x2607
f. TXT x2608
f. TXT x2609
f. TXT x2610
f. TXT x2611
f. TXT x2612
f. TXT x2613
f. TXT x2614
f. TXT x2615
f. TXT x2616
f. TXT x2617
f. TXT x2618
f. TXT x2619
f. TXT x2620
f. TXT x2621
f. TXT x2622
f. TXT x2623
; z00
f. TXT x2625
f. TXT x2626
f. TXT x2627
f. TXT x2628
f. TXT x2629
f. TXT x2630
f. TXT x2631
f. TXT x2632
f. TXT x2633
f. TXT x2634
f. TXT x2635
f. TXT x2636
f. TXT x2637
f. TXT x2638
f. TXT x2639
f. TXT x2640
f. TXT x2641
f. TXT x2642
f. TXT x2643
f. TXT x2644
f. TXT x2645
f. TXT x2646
f. TXT x2647
f. TXT x2648
f. TXT x2649
f. TXT x2650
f. TXT x2651
f. TXT x2652
f. TXT x2653
f. TXT x2654
f. TXT x2655
f. TXT x2656
f. TXT x2657
f. TXT x2658
f. TXT x2659
f. TXT x2660
f. TXT x2661
f. TXT x2662
f. TXT x2663
f. TXT x2664
f. TXT x2665
f. TXT x2666
f. TXT x2667
f. TXT x2668
f. TXT x2669
f. TXT x2670
f. TXT x2671
f. TXT x2672
f. TXT x2673
f. TXT x2674
f. TXT x2675
f. TXT x2676
f. TXT x2677
f. TXT x2678
f. TXT x2679
f. TXT x2680
f. TXT x2681
f. TXT x2682
f. TXT x2683
f. TXT x2684
f. TXT x2685
f. TXT x2686
f. TXT x2687
 NS -
f. TXT x2689
f. TXT x2690
f. TXT x2691
f. TXT x2692
f. TXT x2693
f. TXT x2694
f. TXT x2695
f. TXT x2696
f. TXT x2697
f. TXT x2698
f. TXT x2699
f. TXT x2700
f. TXT x2701
f. TXT x2702
f. TXT x2703
f. TXT x2704
f. TXT x2705
f. TXT x2706
f. TXT x2707
f. TXT x2708
f. TXT x2709
f. TXT x2710
f. TXT x2711
f. TXT x2712
f. TXT x2713
f. TXT x2714
f. TXT x2715
f. TXT x2716
f. TXT x2717
f. TXT x2718
f. TXT x2719
f. TXT x2720
f. TXT x2721
f. TXT x2722
f. TXT x2723
f. TXT x2724
f. TXT x2725
f. TXT x2726
f. TXT x2727
f. TXT x2728
f. TXT x2729
f. TXT x2730
f. TXT x2731
f. TXT x2732
f. TXT x2733
f. TXT x2734
f. TXT x2735
f. TXT x2736
f. TXT x2737
f. TXT x2738
f. TXT x2739
f. TXT x2740
f. TXT x2741
f. TXT x2742
f. TXT x2743
f. TXT x2744
f. TXT x2745
f. TXT x2746
f. TXT x2747
f. TXT x2748
f. TXT x2749
f. TXT x2750
f. TXT x2751
$ORIGIN b.
f. TXT x2753
f. TXT x2754
f. TXT x2755
f. TXT x2756
f. TXT x2757
f. TXT x2758
f. TXT x2759
f. TXT x2760
f. TXT x2761
f. TXT x2762
f. TXT x2763
f. TXT x2764
f. TXT x2765
f. TXT x2766
f. TXT x2767
f. TXT x2768
f. TXT x2769
f. TXT x2770
f. TXT x2771
f. TXT x2772
f. TXT x2773
f. TXT x2774
f. TXT x2775
f. TXT x2776
f. TXT x2777
f. TXT x2778
f. TXT x2779
f. TXT x2780
f. TXT x2781
f. TXT x2782
f. TXT x2783
f. TXT x2784
f. TXT x2785
f. TXT x2786
f. TXT x2787
f. TXT x2788
f. TXT x2789
f. TXT x2790
f. TXT x2791
f. TXT x2792
f. TXT x2793
f. TXT x2794
f. TXT x2795
f. TXT x2796
f. TXT x2797
f. TXT x2798
f. TXT x2799
f. TXT x2800
f. TXT x2801
f. TXT x2802
f. TXT x2803
f. TXT x2804
f. TXT x2805
f. TXT x2806
f. TXT x2807
f. TXT x2808
f. TXT x2809
f. TXT x2810
f. TXT x2811
f. TXT x2812
f. TXT x2813
f. TXT x2814
f. TXT x2815
; c
f. TXT x2817
f. TXT x2818
f. TXT x2819
f. TXT x2820
f. TXT x2821
f. TXT x2822
f. TXT x2823
f. TXT x2824
f. TXT x2825
f. TXT x2826
f. TXT x2827
f. TXT x2828
f. TXT x2829
f. TXT x2830
f. TXT x2831
f. TXT x2832
f. TXT x2833
f. TXT x2834
f. TXT x2835
f. TXT x2836
f. TXT x2837
f. TXT x2838
f. TXT x2839
f. TXT x2840
f. TXT x2841
f. TXT x2842
f. TXT x2843
f. TXT x2844
f. TXT x2845
f. TXT x2846
f. TXT x2847
f. TXT x2848
f. TXT x2849
f. TXT x2850
f. TXT x2851
f. TXT x2852
f. TXT x2853
f. TXT x2854
f. TXT x2855
f. TXT x2856
f. TXT x2857
f. TXT x2858
f. TXT x2859
f. TXT x2860
f. TXT x2861
f. TXT x2862
f. TXT x2863
f. TXT x2864
f. TXT x2865
f. TXT x2866
f. TXT x2867
f. TXT x2868
f. TXT x2869
f. TXT x2870
f. TXT x2871
f. TXT x2872
f. TXT x2873
f. TXT x2874
f. TXT x2875
f. TXT x2876
f. TXT x2877
f. TXT x2878
f. TXT x2879
zx TXT y z*a *b
f. TXT x2881
f. TXT x2882
f. TXT x2883
f. TXT x2884
f. TXT x2885
f. TXT x2886
f. TXT x2887
f. TXT x2888
f. TXT x2889
f. TXT x2890
f. TXT x2891
f. TXT x2892
f. TXT x2893
f. TXT x2894
f. TXT x2895
f. TXT x2896
f. TXT x2897
f. TXT x2898
f. TXT x2899
f. TXT x2900
f. TXT x2901
f. TXT x2902
f. TXT x2903
f. TXT x2904
f. TXT x2905
f. TXT x2906
f. TXT x2907
f. TXT x2908
f. TXT x2909
f. TXT x2910
f. TXT x2911
f. TXT x2912
f. TXT x2913
f. TXT x2914
f. TXT x2915
f. TXT x2916
f. TXT x2917
f. TXT x2918
f. TXT x2919
f. TXT x2920
f. TXT x2921
f. TXT x2922
f. TXT x2923
f. TXT x2924
f. TXT x2925
f. TXT x2926
f. TXT x2927
f. TXT x2928
f. TXT x2929
f. TXT x2930
f. TXT x2931
f. TXT x2932
f. TXT x2933
f. TXT x2934
f. TXT x2935
f. TXT x2936
f. TXT x2937
f. TXT x2938
f. TXT x2939
f. TXT x2940
f. TXT x2941
f. TXT x2942
f. TXT x2943
0*.-. TXT c
f. TXT x2945
f. TXT x2946
f. TXT x2947
f. TXT x2948
f. TXT x2949
f. TXT x2950
f. TXT x2951
f. TXT x2952
f. TXT x2953
f. TXT x2954
f. TXT x2955
f. TXT x2956
f. TXT x2957
f. TXT x2958
f. TXT x2959
f. TXT x2960
f. TXT x2961
f. TXT x2962
f. TXT x2963
f. TXT x2964
f. TXT x2965
f. TXT x2966
f. TXT x2967
f. TXT x2968
f. TXT x2969
f. TXT x2970
f. TXT x2971
f. TXT x2972
f. TXT x2973
f. TXT x2974
f. TXT x2975
f. TXT x2976
f. TXT x2977
f. TXT x2978
f. TXT x2979
f. TXT x2980
f. TXT x2981
f. TXT x2982
f. TXT x2983
f. TXT x2984
f. TXT x2985
f. TXT x2986
f. TXT x2987
f. TXT x2988
f. TXT x2989
f. TXT x2990
f. TXT x2991
f. TXT x2992
f. TXT x2993
f. TXT x2994
f. TXT x2995
f. TXT x2996
f. TXT x2997
f. TXT x2998
f. TXT x2999
f. TXT x3000
f. TXT x3001
f. TXT x3002
f. TXT x3003
f. TXT x3004
f. TXT x3005
f. TXT x3006
f. TXT x3007
; b*a
f. TXT x3009
f. TXT x3010
f. TXT x3011
f. TXT x3012
f. TXT x3013
f. TXT x3014
f. TXT x3015
f. TXT x3016
f. TXT x3017
f. TXT x3018
f. TXT x3019
f. TXT x3020
f. TXT x3021
f. TXT x3022
f. TXT x3023
f. TXT x3024
f. TXT x3025
f. TXT x3026
f. TXT x3027
f. TXT x3028
f. TXT x3029
f. TXT x3030
f. TXT x3031
f. TXT x3032
f. TXT x3033
f. TXT x3034
f. TXT x3035
f. TXT x3036
f. TXT x3037
f. TXT x3038
f. TXT x3039
f. TXT x3040
f. TXT x3041
f. TXT x3042
f. TXT x3043
f. TXT x3044
f. TXT x3045
f. TXT x3046
f. TXT x3047
f. TXT x3048
f. TXT x3049
f. TXT x3050
f. TXT x3051
f. TXT x3052
f. TXT x3053
f. TXT x3054
f. TXT x3055
f. TXT x3056
f. TXT x3057
f. TXT x3058
f. TXT x3059
f. TXT x3060
f. TXT x3061
f. TXT x3062
f. TXT x3063
f. TXT x3064
f. TXT x3065
f. TXT x3066
f. TXT x3067
f. TXT x3068
f. TXT x3069
f. TXT x3070
f. TXT x3071

f. TXT x3073
f. TXT x3074
f. TXT x3075
f. TXT x3076
f. TXT x3077
f. TXT x3078
f. TXT x3079
f. TXT x3080
f. TXT x3081
f. TXT x3082
f. TXT x3083
f. TXT x3084
f. TXT x3085
f. TXT x3086
f. TXT x3087
f. TXT x3088
f. TXT x3089
f. TXT x3090
f. TXT x3091
f. TXT x3092
f. TXT x3093
f. TXT x3094
f. TXT x3095
f. TXT x3096
f. TXT x3097
f. TXT x3098
f. TXT x3099
f. TXT x3100
f. TXT x3101
f. TXT x3102
f. TXT x3103
f. TXT x3104
f. TXT x3105
f. TXT x3106
f. TXT x3107
f. TXT x3108
f. TXT x3109
f. TXT x3110
f. TXT x3111
f. TXT x3112
f. TXT x3113
f. TXT x3114
f. TXT x3115
f. TXT x3116
f. TXT x3117
f. TXT x3118
f. TXT x3119
f. TXT x3120
f. TXT x3121
f. TXT x3122
f. TXT x3123
f. TXT x3124
f. TXT x3125
f. TXT x3126
f. TXT x3127
f. TXT x3128
f. TXT x3129
f. TXT x3130
f. TXT x3131
f. TXT x3132
f. TXT x3133
f. TXT x3134
f. TXT x3135
@ A c* c*yx
f. TXT x3137
f. TXT x3138
f. TXT x3139
f. TXT x3140
f. TXT x3141
f. TXT x3142
f. TXT x3143
f. TXT x3144
f. TXT x3145
f. TXT x3146
f. TXT x3147
f. TXT x3148
f. TXT x3149
f. TXT x3150
f. TXT x3151
f. TXT x3152
f. TXT x3153
f. TXT x3154
f. TXT x3155
f. TXT x3156
f. TXT x3157
f. TXT x3158
f. TXT x3159
f. TXT x3160
f. TXT x3161
f. TXT x3162
f. TXT x3163
f. TXT x3164
f. TXT x3165
f. TXT x3166
f. TXT x3167
f. TXT x3168
f. TXT x3169
f. TXT x3170
f. TXT x3171
f. TXT x3172
f. TXT x3173
f. TXT x3174
f. TXT x3175
f. TXT x3176
f. TXT x3177
f. TXT x3178
f. TXT x3179
f. TXT x3180
f. TXT x3181
f. TXT x3182
f. TXT x3183
f. TXT x3184
f. TXT x3185
f. TXT x3186
f. TXT x3187
f. TXT x3188
f. TXT x3189
f. TXT x3190
f. TXT x3191
f. TXT x3192
f. TXT x3193
f. TXT x3194
f. TXT x3195
f. TXT x3196
f. TXT x3197
f. TXT x3198
f. TXT x3199
; ybc
f. TXT x3201
f. TXT x3202
f. TXT x3203
f. TXT x3204
f. TXT x3205
f. TXT x3206
f. TXT x3207
f. TXT x3208
f. TXT x3209
f. TXT x3210
f. TXT x3211
f. TXT x3212
f. TXT x3213
f. TXT x3214
f. TXT x3215
f. TXT x3216
f. TXT x3217
f. TXT x3218
f. TXT x3219
f. TXT x3220
f. TXT x3221
f. TXT x3222
f. TXT x3223
f. TXT x3224
f. TXT x3225
f. TXT x3226
f. TXT x3227
f. TXT x3228
f. TXT x3229
f. TXT x3230
f. TXT x3231
f. TXT x3232
f. TXT x3233
f. TXT x3234
f. TXT x3235
f. TXT x3236
f. TXT x3237
f. TXT x3238
f. TXT x3239
f. TXT x3240
f. TXT x3241
f. TXT x3242
f. TXT x3243
f. TXT x3244
f. TXT x3245
f. TXT x3246
f. TXT x3247
f. TXT x3248
f. TXT x3249
f. TXT x3250
f. TXT x3251
f. TXT x3252
f. TXT x3253
f. TXT x3254
f. TXT x3255
f. TXT x3256
f. TXT x3257
f. TXT x3258
f. TXT x3259
f. TXT x3260
f. TXT x3261
f. TXT x3262
f. TXT x3263
@ TXT c*x
f. TXT x3265
f. TXT x3266
f. TXT x3267
f. TXT x3268
f. TXT x3269
f. TXT x3270
f. TXT x3271
f. TXT x3272
f. TXT x3273
f. TXT x3274
f. TXT x3275
f. TXT x3276
f. TXT x3277
f. TXT x3278
f. TXT x3279
f. TXT x3280
f. TXT x3281
f. TXT x3282
f. TXT x3283
f. TXT x3284
f. TXT x3285
f. TXT x3286
f. TXT x3287
f. TXT x3288
f. TXT x3289
f. TXT x3290
f. TXT x3291
f. TXT x3292
f. TXT x3293
f. TXT x3294
f. TXT x3295
f. TXT x3296
f. TXT x3297
f. TXT x3298
f. TXT x3299
f. TXT x3300
f. TXT x3301
f. TXT x3302
f. TXT x3303
f. TXT x3304
f. TXT x3305
f. TXT x3306
f. TXT x3307
f. TXT x3308
f. TXT x3309
f. TXT x3310
f. TXT x3311
f. TXT x3312
f. TXT x3313
f. TXT x3314
f. TXT x3315
f. TXT x3316
f. TXT x3317
f. TXT x3318
f. TXT x3319
f. TXT x3320
f. TXT x3321
f. TXT x3322
f. TXT x3323
f. TXT x3324
f. TXT x3325
f. TXT x3326
f. TXT x3327
y-.ay. NS 0x z z*
f. TXT x3329
f. TXT x3330
f. TXT x3331
f. TXT x3332
f. TXT x3333
f. TXT x3334
f. TXT x3335
f. TXT x3336
f. TXT x3337
f. TXT x3338
f. TXT x3339
f. TXT x3340
f. TXT x3341
f. TXT x3342
f. TXT x3343
f. TXT x3344
f. TXT x3345
f. TXT x3346
f. TXT x3347
f. TXT x3348
f. TXT x3349
f. TXT x3350
f. TXT x3351
f. TXT x3352
f. TXT x3353
f. TXT x3354
f. TXT x3355
f. TXT x3356
f. TXT x3357
f. TXT x3358
f. TXT x3359
f. TXT x3360
f. TXT x3361
f. TXT x3362
f. TXT x3363
f. TXT x3364
f. TXT x3365
f. TXT x3366
f. TXT x3367
f. TXT x3368
f. TXT x3369
f. TXT x3370
f. TXT x3371
f. TXT x3372
f. TXT x3373
f. TXT x3374
f. TXT x3375
f. TXT x3376
f. TXT x3377
f. TXT x3378
f. TXT x3379
f. TXT x3380
f. TXT x3381
f. TXT x3382
f. TXT x3383
f. TXT x3384
f. TXT x3385
f. TXT x3386
f. TXT x3387
f. TXT x3388
f. TXT x3389
f. TXT x3390
f. TXT x3391
x. A 0y0*
f. TXT x3393
f. TXT x3394
f. TXT x3395
f. TXT x3396
f. TXT x3397
f. TXT x3398
f. TXT x3399
f. TXT x3400
f. TXT x3401
f. TXT x3402
f. TXT x3403
f. TXT x3404
f. TXT x3405
f. TXT x3406
f. TXT x3407
f. TXT x3408
f. TXT x3409
f. TXT x3410
f. TXT x3411
f. TXT x3412
f. TXT x3413
f. TXT x3414
f. TXT x3415
f. TXT x3416
f. TXT x3417
f. TXT x3418
f. TXT x3419
f. TXT x3420
f. TXT x3421
f. TXT x3422
f. TXT x3423
f. TXT x3424
f. TXT x3425
f. TXT x3426
f. TXT x3427
f. TXT x3428
f. TXT x3429
f. TXT x3430
f. TXT x3431
f. TXT x3432
f. TXT x3433
f. TXT x3434
f. TXT x3435
f. TXT x3436
f. TXT x3437
f. TXT x3438
f. TXT x3439
f. TXT x3440
f. TXT x3441
f. TXT x3442
f. TXT x3443
f. TXT x3444
f. TXT x3445
f. TXT x3446
f. TXT x3447
f. TXT x3448
f. TXT x3449
f. TXT x3450
f. TXT x3451
f. TXT x3452
f. TXT x3453
f. TXT x3454
f. TXT x3455
cy. NS 0y0
f. TXT x3457
f. TXT x3458
f. TXT x3459
f. TXT x3460
f. TXT x3461
f. TXT x3462
f. TXT x3463
f. TXT x3464
f. TXT x3465
f. TXT x3466
f. TXT x3467
f. TXT x3468
f. TXT x3469
f. TXT x3470
f. TXT x3471
f. TXT x3472
f. TXT x3473
f. TXT x3474
f. TXT x3475
f. TXT x3476
f. TXT x3477
f. TXT x3478
f. TXT x3479
f. TXT x3480
f. TXT x3481
f. TXT x3482
f. TXT x3483
f. TXT x3484
f. TXT x3485
f. TXT x3486
f. TXT x3487
f. TXT x3488
f. TXT x3489
f. TXT x3490
f. TXT x3491
f. TXT x3492
f. TXT x3493
f. TXT x3494
f. TXT x3495
f. TXT x3496
f. TXT x3497
f. TXT x3498
f. TXT x3499
f. TXT x3500
f. TXT x3501
f. TXT x3502
f. TXT x3503
f. TXT x3504
f. TXT x3505
f. TXT x3506
f. TXT x3507
f. TXT x3508
f. TXT x3509
f. TXT x3510
f. TXT x3511
f. TXT x3512
f. TXT x3513
f. TXT x3514
f. TXT x3515
f. TXT x3516
f. TXT x3517
f. TXT x3518
f. TXT x3519
$ORIGIN zx.zaz.
f. TXT x3521
f. TXT x3522
f. TXT x3523
f. TXT x3524
f. TXT x3525
f. TXT x3526
f. TXT x3527
f. TXT x3528
f. TXT x3529
f. TXT x3530
f. TXT x3531
f. TXT x3532
f. TXT x3533
f. TXT x3534
f. TXT x3535
f. TXT x3536
f. TXT x3537
f. TXT x3538
f. TXT x3539
f. TXT x3540
f. TXT x3541
f. TXT x3542
f. TXT x3543
f. TXT x3544
f. TXT x3545
f. TXT x3546
f. TXT x3547
f. TXT x3548
f. TXT x3549
f. TXT x3550
f. TXT x3551
f. TXT x3552
f. TXT x3553
f. TXT x3554
f. TXT x3555
f. TXT x3556
f. TXT x3557
f. TXT x3558
f. TXT x3559
f. TXT x3560
f. TXT x3561
f. TXT x3562
f. TXT x3563
f. TXT x3564
f. TXT x3565
f. TXT x3566
f. TXT x3567
f. TXT x3568
f. TXT x3569
f. TXT x3570
f. TXT x3571
f. TXT x3572
f. TXT x3573
f. TXT x3574
f. TXT x3575
f. TXT x3576
f. TXT x3577
f. TXT x3578
f. TXT x3579
f. TXT x3580
f. TXT x3581
f. TXT x3582
f. TXT x3583
 NS 0*
f. TXT x3585
f. TXT x3586
f. TXT x3587
f. TXT x3588
f. TXT x3589
f. TXT x3590
f. TXT x3591
f. TXT x3592
f. TXT x3593
f. TXT x3594
f. TXT x3595
f. TXT x3596
f. TXT x3597
f. TXT x3598
f. TXT x3599
f. TXT x3600
f. TXT x3601
f. TXT x3602
f. TXT x3603
f. TXT x3604
f. TXT x3605
f. TXT x3606
f. TXT x3607
f. TXT x3608
f. TXT x3609
f. TXT x3610
f. TXT x3611
f. TXT x3612
f. TXT x3613
f. TXT x3614
f. TXT x3615
f. TXT x3616
f. TXT x3617
f. TXT x3618
f. TXT x3619
f. TXT x3620
f. TXT x3621
f. TXT x3622
f. TXT x3623
f. TXT x3624
f. TXT x3625
f. TXT x3626
f. TXT x3627
f. TXT x3628
f. TXT x3629
f. TXT x3630
f. TXT x3631
f. TXT x3632
f. TXT x3633
f. TXT x3634
f. TXT x3635
f. TXT x3636
f. TXT x3637
f. TXT x3638
f. TXT x3639
f. TXT x3640
f. TXT x3641
f. TXT x3642
f. TXT x3643
f. TXT x3644
f. TXT x3645
f. TXT x3646
f. TXT x3647
00-b. TXT *c
f. TXT x3649
f. TXT x3650
f. TXT x3651
f. TXT x3652
f. TXT x3653
f. TXT x3654
f. TXT x3655
f. TXT x3656
f. TXT x3657
f. TXT x3658
f. TXT x3659
f. TXT x3660
f. TXT x3661
f. TXT x3662
f. TXT x3663
f. TXT x3664
f. TXT x3665
f. TXT x3666
f. TXT x3667
f. TXT x3668
f. TXT x3669
f. TXT x3670
f. TXT x3671
f. TXT x3672
f. TXT x3673
f. TXT x3674
f. TXT x3675
f. TXT x3676
f. TXT x3677
f. TXT x3678
f. TXT x3679
f. TXT x3680
f. TXT x3681
f. TXT x3682
f. TXT x3683
f. TXT x3684
f. TXT x3685
f. TXT x3686
f. TXT x3687
f. TXT x3688
f. TXT x3689
f. TXT x3690
f. TXT x3691
f. TXT x3692
f. TXT x3693
f. TXT x3694
f. TXT x3695
f. TXT x3696
f. TXT x3697
f. TXT x3698
f. TXT x3699
f. TXT x3700
f. TXT x3701
f. TXT x3702
f. TXT x3703
f. TXT x3704
f. TXT x3705
f. TXT x3706
f. TXT x3707
f. TXT x3708
f. TXT x3709
f. TXT x3710
f. TXT x3711
; 0x-0
f. TXT x3713
f. TXT x3714
f. TXT x3715
f. TXT x3716
f. TXT x3717
f. TXT x3718
f. TXT x3719
f. TXT x3720
f. TXT x3721
f. TXT x3722
f. TXT x3723
f. TXT x3724
f. TXT x3725
f. TXT x3726
f. TXT x3727
f. TXT x3728
f. TXT x3729
f. TXT x3730
f. TXT x3731
f. TXT x3732
f. TXT x3733
f. TXT x3734
f. TXT x3735
f. TXT x3736
f. TXT x3737
f. TXT x3738
f. TXT x3739
f. TXT x3740
f. TXT x3741
f. TXT x3742
f. TXT x3743
f. TXT x3744
f. TXT x3745
f. TXT x3746
f. TXT x3747
f. TXT x3748
f. TXT x3749
f. TXT x3750
f. TXT x3751
f. TXT x3752
f. TXT x3753
f. TXT x3754
f. TXT x3755
f. TXT x3756
f. TXT x3757
f. TXT x3758
f. TXT x3759
f. TXT x3760
f. TXT x3761
f. TXT x3762
f. TXT x3763
f. TXT x3764
f. TXT x3765
f. TXT x3766
f. TXT x3767
f. TXT x3768
f. TXT x3769
f. TXT x3770
f. TXT x3771
f. TXT x3772
f. TXT x3773
f. TXT x3774
f. TXT x3775
-x0.*. NS yx**
f. TXT x3777
f. TXT x3778
f. TXT x3779
f. TXT x3780
f. TXT x3781
f. TXT x3782
f. TXT x3783
f. TXT x3784
f. TXT x3785
f. TXT x3786
f. TXT x3787
f. TXT x3788
f. TXT x3789
f. TXT x3790
f. TXT x3791
f. TXT x3792
f. TXT x3793
f. TXT x3794
f. TXT x3795
f. TXT x3796
f. TXT x3797
f. TXT x3798
f. TXT x3799
f. TXT x3800
f. TXT x3801
f. TXT x3802
f. TXT x3803
f. TXT x3804
f. TXT x3805
f. TXT x3806
f. TXT x3807
f. TXT x3808
f. TXT x3809
f. TXT x3810
f. TXT x3811
f. TXT x3812
f. TXT x3813
f. TXT x3814
f. TXT x3815
f. TXT x3816
f. TXT x3817
f. TXT x3818
f. TXT x3819
f. TXT x3820
f. TXT x3821
f. TXT x3822
f. TXT x3823
f. TXT x3824
f. TXT x3825
f. TXT x3826
f. TXT x3827
f. TXT x3828
f. TXT x3829
f. TXT x3830
f. TXT x3831
f. TXT x3832
f. TXT x3833
f. TXT x3834
f. TXT x3835
f. TXT x3836
f. TXT x3837
f. TXT x3838
f. TXT x3839
aay A b* c*cc xaz*
f. TXT x3841
f. TXT x3842
f. TXT x3843
f. TXT x3844
f. TXT x3845
f. TXT x3846
f. TXT x3847
f. TXT x3848
f. TXT x3849
f. TXT x3850
f. TXT x3851
f. TXT x3852
f. TXT x3853
f. TXT x3854
f. TXT x3855
f. TXT x3856
f. TXT x3857
f. TXT x3858
f. TXT x3859
f. TXT x3860
f. TXT x3861
f. TXT x3862
f. TXT x3863
f. TXT x3864
f. TXT x3865
f. TXT x3866
f. TXT x3867
f. TXT x3868
f. TXT x3869
f. TXT x3870
f. TXT x3871
f. TXT x3872
f. TXT x3873
f. TXT x3874
f. TXT x3875
f. TXT x3876
f. TXT x3877
f. TXT x3878
f. TXT x3879
f. TXT x3880
f. TXT x3881
f. TXT x3882
f. TXT x3883
f. TXT x3884
f. TXT x3885
f. TXT x3886
f. TXT x3887
f. TXT x3888
f. TXT x3889
f. TXT x3890
f. TXT x3891
f. TXT x3892
f. TXT x3893
f. TXT x3894
f. TXT x3895
f. TXT x3896
f. TXT x3897
f. TXT x3898
f. TXT x3899
f. TXT x3900
f. TXT x3901
f. TXT x3902
f. TXT x3903
0*.-a00. NS by- z*0
f. TXT x3905
f. TXT x3906
f. TXT x3907
f. TXT x3908
f. TXT x3909
f. TXT x3910
f. TXT x3911
f. TXT x3912
f. TXT x3913
f. TXT x3914
f. TXT x3915
f. TXT x3916
f. TXT x3917
f. TXT x3918
f. TXT x3919
f. TXT x3920
f. TXT x3921
f. TXT x3922
f. TXT x3923
f. TXT x3924
f. TXT x3925
f. TXT x3926
f. TXT x3927
f. TXT x3928
f. TXT x3929
f. TXT x3930
f. TXT x3931
f. TXT x3932
f. TXT x3933
f. TXT x3934
f. TXT x3935
f. TXT x3936
f. TXT x3937
f. TXT x3938
f. TXT x3939
f. TXT x3940
f. TXT x3941
f. TXT x3942
f. TXT x3943
f. TXT x3944
f. TXT x3945
f. TXT x3946
f. TXT x3947
f. TXT x3948
f. TXT x3949
f. TXT x3950
f. TXT x3951
f. TXT x3952
f. TXT x3953
f. TXT x3954
f. TXT x3955
f. TXT x3956
f. TXT x3957
f. TXT x3958
f. TXT x3959
f. TXT x3960
f. TXT x3961
f. TXT x3962
f. TXT x3963
f. TXT x3964
f. TXT x3965
f. TXT x3966
f. TXT x3967
baxc.0. TXT bb
f. TXT x3969
f. TXT x3970
f. TXT x3971
f. TXT x3972
f. TXT x3973
f. TXT x3974
f. TXT x3975
f. TXT x3976
f. TXT x3977
f. TXT x3978
f. TXT x3979
f. TXT x3980
f. TXT x3981
f. TXT x3982
f. TXT x3983
f. TXT x3984
f. TXT x3985
f. TXT x3986
f. TXT x3987
f. TXT x3988
f. TXT x3989
f. TXT x3990
f. TXT x3991
f. TXT x3992
f. TXT x3993
f. TXT x3994
f. TXT x3995
f. TXT x3996
f. TXT x3997
f. TXT x3998
f. TXT x3999
f. TXT x4000
f. TXT x4001
f. TXT x4002
f. TXT x4003
f. TXT x4004
f. TXT x4005
f. TXT x4006
f. TXT x4007
f. TXT x4008
f. TXT x4009
f. TXT x4010
f. TXT x4011
f. TXT x4012
f. TXT x4013
f. TXT x4014
f. TXT x4015
f. TXT x4016
f. TXT x4017
f. TXT x4018
f. TXT x4019
f. TXT x4020
f. TXT x4021
f. TXT x4022
f. TXT x4023
f. TXT x4024
f. TXT x4025
f. TXT x4026
f. TXT x4027
f. TXT x4028
f. TXT x4029
f. TXT x4030
f. TXT x4031
$ORIGIN xca.x0-b.
f. TXT x4033
f. TXT x4034
f. TXT x4035
f. TXT x4036
f. TXT x4037
f. TXT x4038
f. TXT x4039
f. TXT x4040
f. TXT x4041
f. TXT x4042
f. TXT x4043
f. TXT x4044
f. TXT x4045
f. TXT x4046
f. TXT x4047
f. TXT x4048
f. TXT x4049
f. TXT x4050
f. TXT x4051
f. TXT x4052
f. TXT x4053
f. TXT x4054
f. TXT x4055
f. TXT x4056
f. TXT x4057
f. TXT x4058
f. TXT x4059
f. TXT x4060
f. TXT x4061
f. TXT x4062
f. TXT x4063
f. TXT x4064
f. TXT x4065
f. TXT x4066
f. TXT x4067
f. TXT x4068
f. TXT x4069
f. TXT x4070
f. TXT x4071
f. TXT x4072
f. TXT x4073
f. TXT x4074
f. TXT x4075
f. TXT x4076
f. TXT x4077
f. TXT x4078
f. TXT x4079
f. TXT x4080
f. TXT x4081
f. TXT x4082
f. TXT x4083
f. TXT x4084
f. TXT x4085
f. TXT x4086
f. TXT x4087
f. TXT x4088
f. TXT x4089
f. TXT x4090
f. TXT x4091
f. TXT x4092
f. TXT x4093
f. TXT x4094
f. TXT x4095
x.zba. A -b
f. TXT x4097
f. TXT x4098
f. TXT x4099
f. TXT x4100
f. TXT x4101
f. TXT x4102
f. TXT x4103
f. TXT x4104
f. TXT x4105
f. TXT x4106
f. TXT x4107
f. TXT x4108
f. TXT x4109
f. TXT x4110
f. TXT x4111
f. TXT x4112
f. TXT x4113
f. TXT x4114
f. TXT x4115
f. TXT x4116
f. TXT x4117
f. TXT x4118
f. TXT x4119
f. TXT x4120
f. TXT x4121
f. TXT x4122
f. TXT x4123
f. TXT x4124
f. TXT x4125
f. TXT x4126
f. TXT x4127
f. TXT x4128
f. TXT x4129
f. TXT x4130
f. TXT x4131
f. TXT x4132
f. TXT x4133
f. TXT x4134
f. TXT x4135
f. TXT x4136
f. TXT x4137
f. TXT x4138
f. TXT x4139
f. TXT x4140
f. TXT x4141
f. TXT x4142
f. TXT x4143
f. TXT x4144
f. TXT x4145
f. TXT x4146
f. TXT x4147
f. TXT x4148
f. TXT x4149
f. TXT x4150
f. TXT x4151
f. TXT x4152
f. TXT x4153
f. TXT x4154
f. TXT x4155
f. TXT x4156
f. TXT x4157
f. TXT x4158
f. TXT x4159
x- A zc* vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv y-
f. TXT x4161
f. TXT x4162
f. TXT x4163
f. TXT x4164
f. TXT x4165
f. TXT x4166
f. TXT x4167
f. TXT x4168
f. TXT x4169
f. TXT x4170
f. TXT x4171
f. TXT x4172
f. TXT x4173
f. TXT x4174
f. TXT x4175
f. TXT x4176
f. TXT x4177
f. TXT x4178
f. TXT x4179
f. TXT x4180
f. TXT x4181
f. TXT x4182
f. TXT x4183
f. TXT x4184
f. TXT x4185
f. TXT x4186
f. TXT x4187
f. TXT x4188
f. TXT x4189
f. TXT x4190
f. TXT x4191
f. TXT x4192
f. TXT x4193
f. TXT x4194
f. TXT x4195
f. TXT x4196
f. TXT x4197
f. TXT x4198
f. TXT x4199
f. TXT x4200
f. TXT x4201
f. TXT x4202
f. TXT x4203
f. TXT x4204
f. TXT x4205
f. TXT x4206
f. TXT x4207
f. TXT x4208
f. TXT x4209
f. TXT x4210
f. TXT x4211
f. TXT x4212
f. TXT x4213
f. TXT x4214
f. TXT x4215
f. TXT x4216
f. TXT x4217
f. TXT x4218
f. TXT x4219
f. TXT x4220
f. TXT x4221
f. TXT x4222
f. TXT x4223
y-b. A a*ay
f. TXT x4225
f. TXT x4226
f. TXT x4227
f. TXT x4228
f. TXT x4229
f. TXT x4230
f. TXT x4231
f. TXT x4232
f. TXT x4233
f. TXT x4234
f. TXT x4235
f. TXT x4236
f. TXT x4237
f. TXT x4238
f. TXT x4239
f. TXT x4240
f. TXT x4241
f. TXT x4242
f. TXT x4243
f. TXT x4244
f. TXT x4245
f. TXT x4246
f. TXT x4247
f. TXT x4248
f. TXT x4249
f. TXT x4250
f. TXT x4251
f. TXT x4252
f. TXT x4253
f. TXT x4254
f. TXT x4255
f. TXT x4256
f. TXT x4257
f. TXT x4258
f. TXT x4259
f. TXT x4260
f. TXT x4261
f. TXT x4262
f. TXT x4263
f. TXT x4264
f. TXT x4265
f. TXT x4266
f. TXT x4267
f. TXT x4268
f. TXT x4269
f. TXT x4270
f. TXT x4271
f. TXT x4272
f. TXT x4273
f. TXT x4274
f. TXT x4275
f. TXT x4276
f. TXT x4277
f. TXT x4278
f. TXT x4279
f. TXT x4280
f. TXT x4281
f. TXT x4282
f. TXT x4283
f. TXT x4284
f. TXT x4285
f. TXT x4286
f. TXT x4287
xaz NS b x*-x b*
f. TXT x4289
f. TXT x4290
f. TXT x4291
f. TXT x4292
f. TXT x4293
f. TXT x4294
f. TXT x4295
f. TXT x4296
f. TXT x4297
f. TXT x4298
f. TXT x4299
f. TXT x4300
f. TXT x4301
f. TXT x4302
f. TXT x4303
f. TXT x4304
f. TXT x4305
f. TXT x4306
f. TXT x4307
f. TXT x4308
f. TXT x4309
f. TXT x4310
f. TXT x4311
f. TXT x4312
f. TXT x4313
f. TXT x4314
f. TXT x4315
f. TXT x4316
f. TXT x4317
f. TXT x4318
f. TXT x4319
f. TXT x4320
f. TXT x4321
f. TXT x4322
f. TXT x4323
f. TXT x4324
f. TXT x4325
f. TXT x4326
f. TXT x4327
f. TXT x4328
f. TXT x4329
f. TXT x4330
f. TXT x4331
f. TXT x4332
f. TXT x4333
f. TXT x4334
f. TXT x4335
f. TXT x4336
f. TXT x4337
f. TXT x4338
f. TXT x4339
f. TXT x4340
f. TXT x4341
f. TXT x4342
f. TXT x4343
f. TXT x4344
f. TXT x4345
f. TXT x4346
f. TXT x4347
f. TXT x4348
f. TXT x4349
f. TXT x4350
f. TXT x4351
$ORIGIN 00b.
f. TXT x4353
f. TXT x4354
f. TXT x4355
f. TXT x4356
f. TXT x4357
f. TXT x4358
f. TXT x4359
f. TXT x4360
f. TXT x4361
f. TXT x4362
f. TXT x4363
f. TXT x4364
f. TXT x4365
f. TXT x4366
f. TXT x4367
f. TXT x4368
f. TXT x4369
f. TXT x4370
f. TXT x4371
f. TXT x4372
f. TXT x4373
f. TXT x4374
f. TXT x4375
f. TXT x4376
f. TXT x4377
f. TXT x4378
f. TXT x4379
f. TXT x4380
f. TXT x4381
f. TXT x4382
f. TXT x4383
f. TXT x4384
f. TXT x4385
f. TXT x4386
f. TXT x4387
f. TXT x4388
f. TXT x4389
f. TXT x4390
f. TXT x4391
f. TXT x4392
f. TXT x4393
f. TXT x4394
f. TXT x4395
f. TXT x4396
f. TXT x4397
f. TXT x4398
f. TXT x4399
f. TXT x4400
f. TXT x4401
f. TXT x4402
f. TXT x4403
f. TXT x4404
f. TXT x4405
f. TXT x4406
f. TXT x4407
f. TXT x4408
f. TXT x4409
f. TXT x4410
f. TXT x4411
f. TXT x4412
f. TXT x4413
f. TXT x4414
f. TXT x4415
- A ac xy
f. TXT x4417
f. TXT x4418
f. TXT x4419
f. TXT x4420
f. TXT x4421
f. TXT x4422
f. TXT x4423
f. TXT x4424
f. TXT x4425
f. TXT x4426
f. TXT x4427
f. TXT x4428
f. TXT x4429
f. TXT x4430
f. TXT x4431
f. TXT x4432
f. TXT x4433
f. TXT x4434
f. TXT x4435
f. TXT x4436
f. TXT x4437
f. TXT x4438
f. TXT x4439
f. TXT x4440
f. TXT x4441
f. TXT x4442
f. TXT x4443
f. TXT x4444
f. TXT x4445
f. TXT x4446
f. TXT x4447
f. TXT x4448
f. TXT x4449
f. TXT x4450
f. TXT x4451
f. TXT x4452
f. TXT x4453
f. TXT x4454
f. TXT x4455
f. TXT x4456
f. TXT x4457
f. TXT x4458
f. TXT x4459
f. TXT x4460
f. TXT x4461
f. TXT x4462
f. TXT x4463
f. TXT x4464
f. TXT x4465
f. TXT x4466
f. TXT x4467
f. TXT x4468
f. TXT x4469
f. TXT x4470
f. TXT x4471
f. TXT x4472
f. TXT x4473
f. TXT x4474
f. TXT x4475
f. TXT x4476
f. TXT x4477
f. TXT x4478
f. TXT x4479
c. A vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv a
f. TXT x4481
f. TXT x4482
f. TXT x4483
f. TXT x4484
f. TXT x4485
f. TXT x4486
f. TXT x4487
f. TXT x4488
f. TXT x4489
f. TXT x4490
f. TXT x4491
f. TXT x4492
f. TXT x4493
f. TXT x4494
f. TXT x4495
f. TXT x4496
f. TXT x4497
f. TXT x4498
f. TXT x4499
f. TXT x4500
f. TXT x4501
f. TXT x4502
f. TXT x4503
f. TXT x4504
f. TXT x4505
f. TXT x4506
f. TXT x4507
f. TXT x4508
f. TXT x4509
f. TXT x4510
f. TXT x4511
f. TXT x4512
f. TXT x4513
f. TXT x4514
f. TXT x4515
f. TXT x4516
f. TXT x4517
f. TXT x4518
f. TXT x4519
f. TXT x4520
f. TXT x4521
f. TXT x4522
f. TXT x4523
f. TXT x4524
f. TXT x4525
f. TXT x4526
f. TXT x4527
f. TXT x4528
f. TXT x4529
f. TXT x4530
f. TXT x4531
f. TXT x4532
f. TXT x4533
f. TXT x4534
f. TXT x4535
f. TXT x4536
f. TXT x4537
f. TXT x4538
f. TXT x4539
f. TXT x4540
f. TXT x4541
f. TXT x4542
f. TXT x4543
@ TXT zyyb
f. TXT x4545
f. TXT x4546
f. TXT x4547
f. TXT x4548
f. TXT x4549
f. TXT x4550
f. TXT x4551
f. TXT x4552
f. TXT x4553
f. TXT x4554
f. TXT x4555
f. TXT x4556
f. TXT x4557
f. TXT x4558
f. TXT x4559
f. TXT x4560
f. TXT x4561
f. TXT x4562
f. TXT x4563
f. TXT x4564
f. TXT x4565
f. TXT x4566
f. TXT x4567
f. TXT x4568
f. TXT x4569
f. TXT x4570
f. TXT x4571
f. TXT x4572
f. TXT x4573
f. TXT x4574
f. TXT x4575
f. TXT x4576
f. TXT x4577
f. TXT x4578
f. TXT x4579
f. TXT x4580
f. TXT x4581
f. TXT x4582
f. TXT x4583
f. TXT x4584
f. TXT x4585
f. TXT x4586
f. TXT x4587
f. TXT x4588
f. TXT x4589
f. TXT x4590
f. TXT x4591
f. TXT x4592
f. TXT x4593
f. TXT x4594
f. TXT x4595
f. TXT x4596
f. TXT x4597
f. TXT x4598
f. TXT x4599
f. TXT x4600
f. TXT x4601
f. TXT x4602
f. TXT x4603
f. TXT x4604
f. TXT x4605
f. TXT x4606
f. TXT x4607
@ TXT xb--
f. TXT x4609
f. TXT x4610
f. TXT x4611
f. TXT x4612
f. TXT x4613
f. TXT x4614
f. TXT x4615
f. TXT x4616
f. TXT x4617
f. TXT x4618
f. TXT x4619
f. TXT x4620
f. TXT x4621
f. TXT x4622
f. TXT x4623
f. TXT x4624
f. TXT x4625
f. TXT x4626
f. TXT x4627
f. TXT x4628
f. TXT x4629
f. TXT x4630
f. TXT x4631
f. TXT x4632
f. TXT x4633
f. TXT x4634
f. TXT x4635
f. TXT x4636
f. TXT x4637
f. TXT x4638
f. TXT x4639
f. TXT x4640
f. TXT x4641
f. TXT x4642
f. TXT x4643
f. TXT x4644
f. TXT x4645
f. TXT x4646
f. TXT x4647
f. TXT x4648
f. TXT x4649
f. TXT x4650
f. TXT x4651
f. TXT x4652
f. TXT x4653
f. TXT x4654
f. TXT x4655
f. TXT x4656
f. TXT x4657
f. TXT x4658
f. TXT x4659
f. TXT x4660
f. TXT x4661
f. TXT x4662
f. TXT x4663
f. TXT x4664
f. TXT x4665
f. TXT x4666
f. TXT x4667
f. TXT x4668
f. TXT x4669
f. TXT x4670
f. TXT x4671
b TXT *y
f. TXT x4673
f. TXT x4674
f. TXT x4675
f. TXT x4676
f. TXT x4677
f. TXT x4678
f. TXT x4679
f. TXT x4680
f. TXT x4681
f. TXT x4682
f. TXT x4683
f. TXT x4684
f. TXT x4685
f. TXT x4686
f. TXT x4687
f. TXT x4688
f. TXT x4689
f. TXT x4690
f. TXT x4691
f. TXT x4692
f. TXT x4693
f. TXT x4694
f. TXT x4695
f. TXT x4696
f. TXT x4697
f. TXT x4698
f. TXT x4699
f. TXT x4700
f. TXT x4701
f. TXT x4702
f. TXT x4703
f. TXT x4704
f. TXT x4705
f. TXT x4706
f. TXT x4707
f. TXT x4708
f. TXT x4709
f. TXT x4710
f. TXT x4711
f. TXT x4712
f. TXT x4713
f. TXT x4714
f. TXT x4715
f. TXT x4716
f. TXT x4717
f. TXT x4718
f. TXT x4719
f. TXT x4720
f. TXT x4721
f. TXT x4722
f. TXT x4723
f. TXT x4724
f. TXT x4725
f. TXT x4726
f. TXT x4727
f. TXT x4728
f. TXT x4729
f. TXT x4730
f. TXT x4731
f. TXT x4732
f. TXT x4733
f. TXT x4734
f. TXT x4735
 NS a0a -
f. TXT x4737
f. TXT x4738
f. TXT x4739
f. TXT x4740
f. TXT x4741
f. TXT x4742
f. TXT x4743
f. TXT x4744
f. TXT x4745
f. TXT x4746
f. TXT x4747
f. TXT x4748
f. TXT x4749
f. TXT x4750
f. TXT x4751
f. TXT x4752
f. TXT x4753
f. TXT x4754
f. TXT x4755
f. TXT x4756
f. TXT x4757
f. TXT x4758
f. TXT x4759
f. TXT x4760
f. TXT x4761
f. TXT x4762
f. TXT x4763
f. TXT x4764
f. TXT x4765
f. TXT x4766
f. TXT x4767
f. TXT x4768
f. TXT x4769
f. TXT x4770
f. TXT x4771
f. TXT x4772
f. TXT x4773
f. TXT x4774
f. TXT x4775
f. TXT x4776
f. TXT x4777
f. TXT x4778
f. TXT x4779
f. TXT x4780
f. TXT x4781
f. TXT x4782
f. TXT x4783
f. TXT x4784
f. TXT x4785
f. TXT x4786
f. TXT x4787
f. TXT x4788
f. TXT x4789
f. TXT x4790
f. TXT x4791
f. TXT x4792
f. TXT x4793
f. TXT x4794
f. TXT x4795
f. TXT x4796
f. TXT x4797
f. TXT x4798
f. TXT x4799
z A c c00z
f. TXT x4801
f. TXT x4802
f. TXT x4803
f. TXT x4804
f. TXT x4805
f. TXT x4806
f. TXT x4807
f. TXT x4808
f. TXT x4809
f. TXT x4810
f. TXT x4811
f. TXT x4812
f. TXT x4813
f. TXT x4814
f. TXT x4815
f. TXT x4816
f. TXT x4817
f. TXT x4818
f. TXT x4819
f. TXT x4820
f. TXT x4821
f. TXT x4822
f. TXT x4823
f. TXT x4824
f. TXT x4825
f. TXT x4826
f. TXT x4827
f. TXT x4828
f. TXT x4829
f. TXT x4830
f. TXT x4831
f. TXT x4832
f. TXT x4833
f. TXT x4834
f. TXT x4835
f. TXT x4836
f. TXT x4837
f. TXT x4838
f. TXT x4839
f. TXT x4840
f. TXT x4841
f. TXT x4842
f. TXT x4843
f. TXT x4844
f. TXT x4845
f. TXT x4846
f. TXT x4847
f. TXT x4848
f. TXT x4849
f. TXT x4850
f. TXT x4851
f. TXT x4852
f. TXT x4853
f. TXT x4854
f. TXT x4855
f. TXT x4856
f. TXT x4857
f. TXT x4858
f. TXT x4859
f. TXT x4860
f. TXT x4861
f. TXT x4862
f. TXT x4863
; *-*
f. TXT x4865
f. TXT x4866
f. TXT x4867
f. TXT x4868
f. TXT x4869
f. TXT x4870
f. TXT x4871
f. TXT x4872
f. TXT x4873
f. TXT x4874
f. TXT x4875
f. TXT x4876
f. TXT x4877
f. TXT x4878
f. TXT x4879
f. TXT x4880
f. TXT x4881
f. TXT x4882
f. TXT x4883
f. TXT x4884
f. TXT x4885
f. TXT x4886
f. TXT x4887
f. TXT x4888
f. TXT x4889
f. TXT x4890
f. TXT x4891
f. TXT x4892
f. TXT x4893
f. TXT x4894
f. TXT x4895
f. TXT x4896
f. TXT x4897
f. TXT x4898
f. TXT x4899
f. TXT x4900
f. TXT x4901
f. TXT x4902
f. TXT x4903
f. TXT x4904
f. TXT x4905
f. TXT x4906
f. TXT x4907
f. TXT x4908
f. TXT x4909
f. TXT x4910
f. TXT x4911
f. TXT x4912
f. TXT x4913
f. TXT x4914
f. TXT x4915
f. TXT x4916
f. TXT x4917
f. TXT x4918
f. TXT x4919
f. TXT x4920
f. TXT x4921
f. TXT x4922
f. TXT x4923
f. TXT x4924
f. TXT x4925
f. TXT x4926
f. TXT x4927
ccx NS **y axx
f. TXT x4929
f. TXT x4930
f. TXT x4931
f. TXT x4932
f. TXT x4933
f. TXT x4934
f. TXT x4935
f. TXT x4936
f. TXT x4937
f. TXT x4938
f. TXT x4939
f. TXT x4940
f. TXT x4941
f. TXT x4942
f. TXT x4943
f. TXT x4944
f. TXT x4945
f. TXT x4946
f. TXT x4947
f. TXT x4948
f. TXT x4949
f. TXT x4950
f. TXT x4951
f. TXT x4952
f. TXT x4953
f. TXT x4954
f. TXT x4955
f. TXT x4956
f. TXT x4957
f. TXT x4958
f. TXT x4959
f. TXT x4960
f. TXT x4961
f. TXT x4962
f. TXT x4963
f. TXT x4964
f. TXT x4965
f. TXT x4966
f. TXT x4967
f. TXT x4968
f. TXT x4969
f. TXT x4970
f. TXT x4971
f. TXT x4972
f. TXT x4973
f. TXT x4974
f. TXT x4975
f. TXT x4976
f. TXT x4977
f. TXT x4978
f. TXT x4979
f. TXT x4980
f. TXT x4981
f. TXT x4982
f. TXT x4983
f. TXT x4984
f. TXT x4985
f. TXT x4986
f. TXT x4987
f. TXT x4988
f. TXT x4989
f. TXT x4990
f. TXT x4991
$TTL 2147483648
f. TXT x4993
f. TXT x4994
f. TXT x4995
f. TXT x4996
f. TXT x4997
f. TXT x4998
f. TXT x4999
f. TXT x5000
f. TXT x5001
f. TXT x5002
f. TXT x5003
f. TXT x5004
f. TXT x5005
f. TXT x5006
f. TXT x5007
f. TXT x5008
f. TXT x5009
f. TXT x5010
f. TXT x5011
f. TXT x5012
f. TXT x5013
f. TXT x5014
f. TXT x5015
f. TXT x5016
f. TXT x5017
f. TXT x5018
f. TXT x5019
f. TXT x5020
f. TXT x5021
f. TXT x5022
f. TXT x5023
f. TXT x5024
f. TXT x5025
f. TXT x5026
f. TXT x5027
f. TXT x5028
f. TXT x5029
f. TXT x5030
f. TXT x5031
f. TXT x5032
f. TXT x5033
f. TXT x5034
f. TXT x5035
f. TXT x5036
f. TXT x5037
f. TXT x5038
f. TXT x5039
f. TXT x5040
f. TXT x5041
f. TXT x5042
f. TXT x5043
f. TXT x5044
f. TXT x5045
f. TXT x5046
f. TXT x5047
f. TXT x5048
f. TXT x5049
f. TXT x5050
f. TXT x5051
f. TXT x5052
f. TXT x5053
f. TXT x5054
f. TXT x5055
y- NS cb- xaz z
f. TXT x5057
f. TXT x5058
f. TXT x5059
f. TXT x5060
f. TXT x5061
f. TXT x5062
f. TXT x5063
f. TXT x5064
f. TXT x5065
f. TXT x5066
f. TXT x5067
f. TXT x5068
f. TXT x5069
f. TXT x5070
f. TXT x5071
f. TXT x5072
f. TXT x5073
f. TXT x5074
f. TXT x5075
f. TXT x5076
f. TXT x5077
f. TXT x5078
f. TXT x5079
f. TXT x5080
f. TXT x5081
f. TXT x5082
f. TXT x5083
f. TXT x5084
f. TXT x5085
f. TXT x5086
f. TXT x5087
f. TXT x5088
f. TXT x5089
f. TXT x5090
f. TXT x5091
f. TXT x5092
f. TXT x5093
f. TXT x5094
f. TXT x5095
f. TXT x5096
f. TXT x5097
f. TXT x5098
f. TXT x5099
f. TXT x5100
f. TXT x5101
f. TXT x5102
f. TXT x5103
f. TXT x5104
f. TXT x5105
f. TXT x5106
f. TXT x5107
f. TXT x5108
f. TXT x5109
f. TXT x5110
f. TXT x5111
f. TXT x5112
f. TXT x5113
f. TXT x5114
f. TXT x5115
f. TXT x5116
f. TXT x5117
f. TXT x5118
f. TXT x5119
a*. NS 000c bz-
f. TXT x5121
f. TXT x5122
f. TXT x5123
f. TXT x5124
f. TXT x5125
f. TXT x5126
f. TXT x5127
f. TXT x5128
f. TXT x5129
f. TXT x5130
f. TXT x5131
f. TXT x5132
f. TXT x5133
f. TXT x5134
f. TXT x5135
f. TXT x5136
f. TXT x5137
f. TXT x5138
f. TXT x5139
f. TXT x5140
f. TXT x5141
f. TXT x5142
f. TXT x5143
f. TXT x5144
f. TXT x5145
f. TXT x5146
f. TXT x5147
f. TXT x5148
f. TXT x5149
f. TXT x5150
f. TXT x5151
f. TXT x5152
f. TXT x5153
f. TXT x5154
f. TXT x5155
f. TXT x5156
f. TXT x5157
f. TXT x5158
f. TXT x5159
f. TXT x5160
f. TXT x5161
f. TXT x5162
f. TXT x5163
f. TXT x5164
f. TXT x5165
f. TXT x5166
f. TXT x5167
f. TXT x5168
f. TXT x5169
f. TXT x5170
f. TXT x5171
f. TXT x5172
f. TXT x5173
f. TXT x5174
f. TXT x5175
f. TXT x5176
f. TXT x5177
f. TXT x5178
f. TXT x5179
f. TXT x5180
f. TXT x5181
f. TXT x5182
f. TXT x5183
 NS b* 0*c* ca
f. TXT x5185
f. TXT x5186
f. TXT x5187
f. TXT x5188
f. TXT x5189
f. TXT x5190
f. TXT x5191
f. TXT x5192
f. TXT x5193
f. TXT x5194
f. TXT x5195
f. TXT x5196
f. TXT x5197
f. TXT x5198
f. TXT x5199
f. TXT x5200
f. TXT x5201
f. TXT x5202
f. TXT x5203
f. TXT x5204
f. TXT x5205
f. TXT x5206
f. TXT x5207
f. TXT x5208
f. TXT x5209
f. TXT x5210
f. TXT x5211
f. TXT x5212
f. TXT x5213
f. TXT x5214
f. TXT x5215
f. TXT x5216
f. TXT x5217
f. TXT x5218
f. TXT x5219
f. TXT x5220
f. TXT x5221
f. TXT x5222
f. TXT x5223
f. TXT x5224
f. TXT x5225
f. TXT x5226
f. TXT x5227
f. TXT x5228
f. TXT x5229
f. TXT x5230
f. TXT x5231
f. TXT x5232
f. TXT x5233
f. TXT x5234
f. TXT x5235
f. TXT x5236
f. TXT x5237
f. TXT x5238
f. TXT x5239
f. TXT x5240
f. TXT x5241
f. TXT x5242
f. TXT x5243
f. TXT x5244
f. TXT x5245
f. TXT x5246
f. TXT x5247
 A yyxa y
f. TXT x5249
f. TXT x5250
f. TXT x5251
f. TXT x5252
f. TXT x5253
f. TXT x5254
f. TXT x5255
f. TXT x5256
f. TXT x5257
f. TXT x5258
f. TXT x5259
f. TXT x5260
f. TXT x5261
f. TXT x5262
f. TXT x5263
f. TXT x5264
f. TXT x5265
f. TXT x5266
f. TXT x5267
f. TXT x5268
f. TXT x5269
f. TXT x5270
f. TXT x5271
f. TXT x5272
f. TXT x5273
f. TXT x5274
f. TXT x5275
f. TXT x5276
f. TXT x5277
f. TXT x5278
f. TXT x5279
f. TXT x5280
f. TXT x5281
f. TXT x5282
f. TXT x5283
f. TXT x5284
f. TXT x5285
f. TXT x5286
f. TXT x5287
f. TXT x5288
f. TXT x5289
f. TXT x5290
f. TXT x5291
f. TXT x5292
f. TXT x5293
f. TXT x5294
f. TXT x5295
f. TXT x5296
f. TXT x5297
f. TXT x5298
f. TXT x5299
f. TXT x5300
f. TXT x5301
f. TXT x5302
f. TXT x5303
f. TXT x5304
f. TXT x5305
f. TXT x5306
f. TXT x5307
f. TXT x5308
f. TXT x5309
f. TXT x5310
f. TXT x5311
0bb TXT x x *zx
f. TXT x5313
f. TXT x5314
f. TXT x5315
f. TXT x5316
f. TXT x5317
f. TXT x5318
f. TXT x5319
f. TXT x5320
f. TXT x5321
f. TXT x5322
f. TXT x5323
f. TXT x5324
f. TXT x5325
f. TXT x5326
f. TXT x5327
f. TXT x5328
f. TXT x5329
f. TXT x5330
f. TXT x5331
f. TXT x5332
f. TXT x5333
f. TXT x5334
f. TXT x5335
f. TXT x5336
f. TXT x5337
f. TXT x5338
f. TXT x5339
f. TXT x5340
f. TXT x5341
f. TXT x5342
f. TXT x5343
f. TXT x5344
f. TXT x5345
f. TXT x5346
f. TXT x5347
f. TXT x5348
f. TXT x5349
f. TXT x5350
f. TXT x5351
f. TXT x5352
f. TXT x5353
f. TXT x5354
f. TXT x5355
f. TXT x5356
f. TXT x5357
f. TXT x5358
f. TXT x5359
f. TXT x5360
f. TXT x5361
f. TXT x5362
f. TXT x5363
f. TXT x5364
f. TXT x5365
f. TXT x5366
f. TXT x5367
f. TXT x5368
f. TXT x5369
f. TXT x5370
f. TXT x5371
f. TXT x5372
f. TXT x5373
f. TXT x5374
f. TXT x5375
z-.0. NS y-z* --a
f. TXT x5377
f. TXT x5378
f. TXT x5379
f. TXT x5380
f. TXT x5381
f. TXT x5382
f. TXT x5383
f. TXT x5384
f. TXT x5385
f. TXT x5386
f. TXT x5387
f. TXT x5388
f. TXT x5389
f. TXT x5390
f. TXT x5391
f. TXT x5392
f. TXT x5393
f. TXT x5394
f. TXT x5395
f. TXT x5396
f. TXT x5397
f. TXT x5398
f. TXT x5399
f. TXT x5400
f. TXT x5401
f. TXT x5402
f. TXT x5403
f. TXT x5404
f. TXT x5405
f. TXT x5406
f. TXT x5407
f. TXT x5408
f. TXT x5409
f. TXT x5410
f. TXT x5411
f. TXT x5412
f. TXT x5413
f. TXT x5414
f. TXT x5415
f. TXT x5416
f. TXT x5417
f. TXT x5418
f. TXT x5419
f. TXT x5420
f. TXT x5421
f. TXT x5422
f. TXT x5423
f. TXT x5424
f. TXT x5425
f. TXT x5426
f. TXT x5427
f. TXT x5428
f. TXT x5429
f. TXT x5430
f. TXT x5431
f. TXT x5432
f. TXT x5433
f. TXT x5434
f. TXT x5435
f. TXT x5436
f. TXT x5437
f. TXT x5438
f. TXT x5439
 NS x0b
f. TXT x5441
f. TXT x5442
f. TXT x5443
f. TXT x5444
f. TXT x5445
f. TXT x5446
f. TXT x5447
f. TXT x5448
f. TXT x5449
f. TXT x5450
f. TXT x5451
f. TXT x5452
f. TXT x5453
f. TXT x5454
f. TXT x5455
f. TXT x5456
f. TXT x5457
f. TXT x5458
f. TXT x5459
f. TXT x5460
f. TXT x5461
f. TXT x5462
f. TXT x5463
f. TXT x5464
f. TXT x5465
f. TXT x5466
f. TXT x5467
f. TXT x5468
f. TXT x5469
f. TXT x5470
f. TXT x5471
f. TXT x5472
f. TXT x5473
f. TXT x5474
f. TXT x5475
f. TXT x5476
f. TXT x5477
f. TXT x5478
f. TXT x5479
f. TXT x5480
f. TXT x5481
f. TXT x5482
f. TXT x5483
f. TXT x5484
f. TXT x5485
f. TXT x5486
f. TXT x5487
f. TXT x5488
f. TXT x5489
f. TXT x5490
f. TXT x5491
f. TXT x5492
f. TXT x5493
f. TXT x5494
f. TXT x5495
f. TXT x5496
f. TXT x5497
f. TXT x5498
f. TXT x5499
f. TXT x5500
f. TXT x5501
f. TXT x5502
f. TXT x5503
cxb. A b
f. TXT x5505
f. TXT x5506
f. TXT x5507
f. TXT x5508
f. TXT x5509
f. TXT x5510
f. TXT x5511
f. TXT x5512
f. TXT x5513
f. TXT x5514
f. TXT x5515
f. TXT x5516
f. TXT x5517
f. TXT x5518
f. TXT x5519
f. TXT x5520
f. TXT x5521
f. TXT x5522
f. TXT x5523
f. TXT x5524
f. TXT x5525
f. TXT x5526
f. TXT x5527
f. TXT x5528
f. TXT x5529
f. TXT x5530
f. TXT x5531
f. TXT x5532
f. TXT x5533
f. TXT x5534
f. TXT x5535
f. TXT x5536
f. TXT x5537
f. TXT x5538
f. TXT x5539
f. TXT x5540
f. TXT x5541
f. TXT x5542
f. TXT x5543
f. TXT x5544
f. TXT x5545
f. TXT x5546
f. TXT x5547
f. TXT x5548
f. TXT x5549
f. TXT x5550
f. TXT x5551
f. TXT x5552
f. TXT x5553
f. TXT x5554
f. TXT x5555
f. TXT x5556
f. TXT x5557
f. TXT x5558
f. TXT x5559
f. TXT x5560
f. TXT x5561
f. TXT x5562
f. TXT x5563
f. TXT x5564
f. TXT x5565
f. TXT x5566
f. TXT x5567
@ TXT yy0 0cb
f. TXT x5569
f. TXT x5570
f. TXT x5571
f. TXT x5572
f. TXT x5573
f. TXT x5574
f. TXT x5575
f. TXT x5576
f. TXT x5577
f. TXT x5578
f. TXT x5579
f. TXT x5580
f. TXT x5581
f. TXT x5582
f. TXT x5583
f. TXT x5584
f. TXT x5585
f. TXT x5586
f. TXT x5587
f. TXT x5588
f. TXT x5589
f. TXT x5590
f. TXT x5591
f. TXT x5592
f. TXT x5593
f. TXT x5594
f. TXT x5595
f. TXT x5596
f. TXT x5597
f. TXT x5598
f. TXT x5599
f. TXT x5600
f. TXT x5601
f. TXT x5602
f. TXT x5603
f. TXT x5604
f. TXT x5605
f. TXT x5606
f. TXT x5607
f. TXT x5608
f. TXT x5609
f. TXT x5610
f. TXT x5611
f. TXT x5612
f. TXT x5613
f. TXT x5614
f. TXT x5615
f. TXT x5616
f. TXT x5617
f. TXT x5618
f. TXT x5619
f. TXT x5620
f. TXT x5621
f. TXT x5622
f. TXT x5623
f. TXT x5624
f. TXT x5625
f. TXT x5626
f. TXT x5627
f. TXT x5628
f. TXT x5629
f. TXT x5630
f. TXT x5631
@ NS x*x b
f. TXT x5633
f. TXT x5634
f. TXT x5635
f. TXT x5636
f. TXT x5637
f. TXT x5638
f. TXT x5639
f. TXT x5640
f. TXT x5641
f. TXT x5642
f. TXT x5643
f. TXT x5644
f. TXT x5645
f. TXT x5646
f. TXT x5647
f. TXT x5648
f. TXT x5649
f. TXT x5650
f. TXT x5651
f. TXT x5652
f. TXT x5653
f. TXT x5654
f. TXT x5655
f. TXT x5656
f. TXT x5657
f. TXT x5658
f. TXT x5659
f. TXT x5660
f. TXT x5661
f. TXT x5662
f. TXT x5663
f. TXT x5664
f. TXT x5665
f. TXT x5666
f. TXT x5667
f. TXT x5668
f. TXT x5669
f. TXT x5670
f. TXT x5671
f. TXT x5672
f. TXT x5673
f. TXT x5674
f. TXT x5675
f. TXT x5676
f. TXT x5677
f. TXT x5678
f. TXT x5679
f. TXT x5680
f. TXT x5681
f. TXT x5682
f. TXT x5683
f. TXT x5684
f. TXT x5685
f. TXT x5686
f. TXT x5687
f. TXT x5688
f. TXT x5689
f. TXT x5690
f. TXT x5691
f. TXT x5692
f. TXT x5693
f. TXT x5694
f. TXT x5695
z0z.y-x. NS y*-*
f. TXT x5697
f. TXT x5698
f. TXT x5699
f. TXT x5700
f. TXT x5701
f. TXT x5702
f. TXT x5703
f. TXT x5704
f. TXT x5705
f. TXT x5706
f. TXT x5707
f. TXT x5708
f. TXT x5709
f. TXT x5710
f. TXT x5711
f. TXT x5712
f. TXT x5713
f. TXT x5714
f. TXT x5715
f. TXT x5716
f. TXT x5717
f. TXT x5718
f. TXT x5719
f. TXT x5720
f. TXT x5721
f. TXT x5722
f. TXT x5723
f. TXT x5724
f. TXT x5725
f. TXT x5726
f. TXT x5727
f. TXT x5728
f. TXT x5729
f. TXT x5730
f. TXT x5731
f. TXT x5732
f. TXT x5733
f. TXT x5734
f. TXT x5735
f. TXT x5736
f. TXT x5737
f. TXT x5738
f. TXT x5739
f. TXT x5740
f. TXT x5741
f. TXT x5742
f. TXT x5743
f. TXT x5744
f. TXT x5745
f. TXT x5746
f. TXT x5747
f. TXT x5748
f. TXT x5749
f. TXT x5750
f. TXT x5751
f. TXT x5752
f. TXT x5753
f. TXT x5754
f. TXT x5755
f. TXT x5756
f. TXT x5757
f. TXT x5758
f. TXT x5759
cbc TXT xc-b
f. TXT x5761
f. TXT x5762
f. TXT x5763
f. TXT x5764
f. TXT x5765
f. TXT x5766
f. TXT x5767
f. TXT x5768
f. TXT x5769
f. TXT x5770
f. TXT x5771
f. TXT x5772
f. TXT x5773
f. TXT x5774
f. TXT x5775
f. TXT x5776
f. TXT x5777
f. TXT x5778
f. TXT x5779
f. TXT x5780
f. TXT x5781
f. TXT x5782
f. TXT x5783
f. TXT x5784
f. TXT x5785
f. TXT x5786
f. TXT x5787
f. TXT x5788
f. TXT x5789
f. TXT x5790
f. TXT x5791
f. TXT x5792
f. TXT x5793
f. TXT x5794
f. TXT x5795
f. TXT x5796
f. TXT x5797
f. TXT x5798
f. TXT x5799
f. TXT x5800
f. TXT x5801
f. TXT x5802
f. TXT x5803
f. TXT x5804
f. TXT x5805
f. TXT x5806
f. TXT x5807
f. TXT x5808
f. TXT x5809
f. TXT x5810
f. TXT x5811
f. TXT x5812
f. TXT x5813
f. TXT x5814
f. TXT x5815
f. TXT x5816
f. TXT x5817
f. TXT x5818
f. TXT x5819
f. TXT x5820
f. TXT x5821
f. TXT x5822
f. TXT x5823
 TXT x xc-y
f. TXT x5825
f. TXT x5826
f. TXT x5827
f. TXT x5828
f. TXT x5829
f. TXT x5830
f. TXT x5831
f. TXT x5832
f. TXT x5833
f. TXT x5834
f. TXT x5835
f. TXT x5836
f. TXT x5837
f. TXT x5838
f. TXT x5839
f. TXT x5840
f. TXT x5841
f. TXT x5842
f. TXT x5843
f. TXT x5844
f. TXT x5845
f. TXT x5846
f. TXT x5847
f. TXT x5848
f. TXT x5849
f. TXT x5850
f. TXT x5851
f. TXT x5852
f. TXT x5853
f. TXT x5854
f. TXT x5855
f. TXT x5856
f. TXT x5857
f. TXT x5858
f. TXT x5859
f. TXT x5860
f. TXT x5861
f. TXT x5862
f. TXT x5863
f. TXT x5864
f. TXT x5865
f. TXT x5866
f. TXT x5867
f. TXT x5868
f. TXT x5869
f. TXT x5870
f. TXT x5871
f. TXT x5872
f. TXT x5873
f. TXT x5874
f. TXT x5875
f. TXT x5876
f. TXT x5877
f. TXT x5878
f. TXT x5879
f. TXT x5880
f. TXT x5881
f. TXT x5882
f. TXT x5883
f. TXT x5884
f. TXT x5885
f. TXT x5886
f. TXT x5887
@ TXT z
f. TXT x5889
f. TXT x5890
f. TXT x5891
f. TXT x5892
f. TXT x5893
f. TXT x5894
f. TXT x5895
f. TXT x5896
f. TXT x5897
f. TXT x5898
f. TXT x5899
f. TXT x5900
f. TXT x5901
f. TXT x5902
f. TXT x5903
f. TXT x5904
f. TXT x5905
f. TXT x5906
f. TXT x5907
f. TXT x5908
f. TXT x5909
f. TXT x5910
f. TXT x5911
f. TXT x5912
f. TXT x5913
f. TXT x5914
f. TXT x5915
f. TXT x5916
f. TXT x5917
f. TXT x5918
f. TXT x5919
f. TXT x5920
f. TXT x5921
f. TXT x5922
f. TXT x5923
f. TXT x5924
f. TXT x5925
f. TXT x5926
f. TXT x5927
f. TXT x5928
f. TXT x5929
f. TXT x5930
f. TXT x5931
f. TXT x5932
f. TXT x5933
f. TXT x5934
f. TXT x5935
f. TXT x5936
f. TXT x5937
f. TXT x5938
f. TXT x5939
f. TXT x5940
f. TXT x5941
f. TXT x5942
f. TXT x5943
f. TXT x5944
f. TXT x5945
f. TXT x5946
f. TXT x5947
f. TXT x5948
f. TXT x5949
f. TXT x5950
f. TXT x5951
x.c00z. NS cb0
f. TXT x5953
f. TXT x5954
f. TXT x5955
f. TXT x5956
f. TXT x5957
f. TXT x5958
f. TXT x5959
f. TXT x5960
f. TXT x5961
f. TXT x5962
f. TXT x5963
f. TXT x5964
f. TXT x5965
f. TXT x5966
f. TXT x5967
f. TXT x5968
f. TXT x5969
f. TXT x5970
f. TXT x5971
f. TXT x5972
f. TXT x5973
f. TXT x5974
f. TXT x5975
f. TXT x5976
f. TXT x5977
f. TXT x5978
f. TXT x5979
f. TXT x5980
f. TXT x5981
f. TXT x5982
f. TXT x5983
f. TXT x5984
f. TXT x5985
f. TXT x5986
f. TXT x5987
f. TXT x5988
f. TXT x5989
f. TXT x5990
f. TXT x5991
f. TXT x5992
f. TXT x5993
f. TXT x5994
f. TXT x5995
f. TXT x5996
f. TXT x5997
f. TXT x5998
f. TXT x5999
f. TXT x6000
f. TXT x6001
f. TXT x6002
f. TXT x6003
f. TXT x6004
f. TXT x6005
f. TXT x6006
f. TXT x6007
f. TXT x6008
f. TXT x6009
f. TXT x6010
f. TXT x6011
f. TXT x6012
f. TXT x6013
f. TXT x6014
f. TXT x6015

f. TXT x6017
f. TXT x6018
f. TXT x6019
f. TXT x6020
f. TXT x6021
f. TXT x6022
f. TXT x6023
f. TXT x6024
f. TXT x6025
f. TXT x6026
f. TXT x6027
f. TXT x6028
f. TXT x6029
f. TXT x6030
f. TXT x6031
f. TXT x6032
f. TXT x6033
f. TXT x6034
f. TXT x6035
f. TXT x6036
f. TXT x6037
f. TXT x6038
f. TXT x6039
f. TXT x6040
f. TXT x6041
f. TXT x6042
f. TXT x6043
f. TXT x6044
f. TXT x6045
f. TXT x6046
f. TXT x6047
f. TXT x6048
f. TXT x6049
f. TXT x6050
f. TXT x6051
f. TXT x6052
f. TXT x6053
f. TXT x6054
f. TXT x6055
f. TXT x6056
f. TXT x6057
f. TXT x6058
f. TXT x6059
f. TXT x6060
f. TXT x6061
f. TXT x6062
f. TXT x6063
f. TXT x6064
f. TXT x6065
f. TXT x6066
f. TXT x6067
f. TXT x6068
f. TXT x6069
f. TXT x6070
f. TXT x6071
f. TXT x6072
f. TXT x6073
f. TXT x6074
f. TXT x6075
f. TXT x6076
f. TXT x6077
f. TXT x6078
f. TXT x6079
; 0
f. TXT x6081
f. TXT x6082
f. TXT x6083
f. TXT x6084
f. TXT x6085
f. TXT x6086
f. TXT x6087
f. TXT x6088
f. TXT x6089
f. TXT x6090
f. TXT x6091
f. TXT x6092
f. TXT x6093
f. TXT x6094
f. TXT x6095
f. TXT x6096
f. TXT x6097
f. TXT x6098
f. TXT x6099
f. TXT x6100
f. TXT x6101
f. TXT x6102
f. TXT x6103
f. TXT x6104
f. TXT x6105
f. TXT x6106
f. TXT x6107
f. TXT x6108
f. TXT x6109
f. TXT x6110
f. TXT x6111
f. TXT x6112
f. TXT x6113
f. TXT x6114
f. TXT x6115
f. TXT x6116
f. TXT x6117
f. TXT x6118
f. TXT x6119
f. TXT x6120
f. TXT x6121
f. TXT x6122
f. TXT x6123
f. TXT x6124
f. TXT x6125
f. TXT x6126
f. TXT x6127
f. TXT x6128
f. TXT x6129
f. TXT x6130
f. TXT x6131
f. TXT x6132
f. TXT x6133
f. TXT x6134
f. TXT x6135
f. TXT x6136
f. TXT x6137
f. TXT x6138
f. TXT x6139
f. TXT x6140
f. TXT x6141
f. TXT x6142
f. TXT x6143
; bc
f. TXT x6145
f. TXT x6146
f. TXT x6147
f. TXT x6148
f. TXT x6149
f. TXT x6150
f. TXT x6151
f. TXT x6152
f. TXT x6153
f. TXT x6154
f. TXT x6155
f. TXT x6156
f. TXT x6157
f. TXT x6158
f. TXT x6159
f. TXT x6160
f. TXT x6161
f. TXT x6162
f. TXT x6163
f. TXT x6164
f. TXT x6165
f. TXT x6166
f. TXT x6167
f. TXT x6168
f. TXT x6169
f. TXT x6170
f. TXT x6171
f. TXT x6172
f. TXT x6173
f. TXT x6174
f. TXT x6175
f. TXT x6176
f. TXT x6177
f. TXT x6178
f. TXT x6179
f. TXT x6180
f. TXT x6181
f. TXT x6182
f. TXT x6183
f. TXT x6184
f. TXT x6185
f. TXT x6186
f. TXT x6187
f. TXT x6188
f. TXT x6189
f. TXT x6190
f. TXT x6191
f. TXT x6192
f. TXT x6193
f. TXT x6194
f. TXT x6195
f. TXT x6196
f. TXT x6197
f. TXT x6198
f. TXT x6199
f. TXT x6200
f. TXT x6201
f. TXT x6202
f. TXT x6203
f. TXT x6204
f. TXT x6205
f. TXT x6206
f. TXT x6207
$TTL 3
f. TXT x6209
f. TXT x6210
f. TXT x6211
f. TXT x6212
f. TXT x6213
f. TXT x6214
f. TXT x6215
f. TXT x6216
f. TXT x6217
f. TXT x6218
f. TXT x6219
f. TXT x6220
f. TXT x6221
f. TXT x6222
f. TXT x6223
f. TXT x6224
f. TXT x6225
f. TXT x6226
f. TXT x6227
f. TXT x6228
f. TXT x6229
f. TXT x6230
f. TXT x6231
f. TXT x6232
f. TXT x6233
f. TXT x6234
f. TXT x6235
f. TXT x6236
f. TXT x6237
f. TXT x6238
f. TXT x6239
f. TXT x6240
f. TXT x6241
f. TXT x6242
f. TXT x6243
f. TXT x6244
f. TXT x6245
f. TXT x6246
f. TXT x6247
f. TXT x6248
f. TXT x6249
f. TXT x6250
f. TXT x6251
f. TXT x6252
f. TXT x6253
f. TXT x6254
f. TXT x6255
f. TXT x6256
f. TXT x6257
f. TXT x6258
f. TXT x6259
f. TXT x6260
f. TXT x6261
f. TXT x6262
f. TXT x6263
f. TXT x6264
f. TXT x6265
f. TXT x6266
f. TXT x6267
f. TXT x6268
f. TXT x6269
f. TXT x6270
f. TXT x6271
@ A - 0-zb
f. TXT x6273
f. TXT x6274
f. TXT x6275
f. TXT x6276
f. TXT x6277
f. TXT x6278
f. TXT x6279
f. TXT x6280
f. TXT x6281
f. TXT x6282
f. TXT x6283
f. TXT x6284
f. TXT x6285
f. TXT x6286
f. TXT x6287
f. TXT x6288
f. TXT x6289
f. TXT x6290
f. TXT x6291
f. TXT x6292
f. TXT x6293
f. TXT x6294
f. TXT x6295
f. TXT x6296
f. TXT x6297
f. TXT x6298
f. TXT x6299
f. TXT x6300
f. TXT x6301
f. TXT x6302
f. TXT x6303
f. TXT x6304
f. TXT x6305
f. TXT x6306
f. TXT x6307
f. TXT x6308
f. TXT x6309
f. TXT x6310
f. TXT x6311
f. TXT x6312
f. TXT x6313
f. TXT x6314
f. TXT x6315
f. TXT x6316
f. TXT x6317
f. TXT x6318
f. TXT x6319
f. TXT x6320
f. TXT x6321
f. TXT x6322
f. TXT x6323
f. TXT x6324
f. TXT x6325
f. TXT x6326
f. TXT x6327
f. TXT x6328
f. TXT x6329
f. TXT x6330
f. TXT x6331
f. TXT x6332
f. TXT x6333
f. TXT x6334
f. TXT x6335
$ORIGIN x.**x.
f. TXT x6337
f. TXT x6338
f. TXT x6339
f. TXT x6340
f. TXT x6341
f. TXT x6342
f. TXT x6343
f. TXT x6344
f. TXT x6345
f. TXT x6346
f. TXT x6347
f. TXT x6348
f. TXT x6349
f. TXT x6350
f. TXT x6351
f. TXT x6352
f. TXT x6353
f. TXT x6354
f. TXT x6355
f. TXT x6356
f. TXT x6357
f. TXT x6358
f. TXT x6359
f. TXT x6360
f. TXT x6361
f. TXT x6362
f. TXT x6363
f. TXT x6364
f. TXT x6365
f. TXT x6366
f. TXT x6367
f. TXT x6368
f. TXT x6369
f. TXT x6370
f. TXT x6371
f. TXT x6372
f. TXT x6373
f. TXT x6374
f. TXT x6375
f. TXT x6376
f. TXT x6377
f. TXT x6378
f. TXT x6379
f. TXT x6380
f. TXT x6381
f. TXT x6382
f. TXT x6383
f. TXT x6384
f. TXT x6385
f. TXT x6386
f. TXT x6387
f. TXT x6388
f. TXT x6389
f. TXT x6390
f. TXT x6391
f. TXT x6392
f. TXT x6393
f. TXT x6394
f. TXT x6395
f. TXT x6396
f. TXT x6397
f. TXT x6398
f. TXT x6399
 NS yz-z
f. TXT x6401
f. TXT x6402
f. TXT x6403
f. TXT x6404
f. TXT x6405
f. TXT x6406
f. TXT x6407
f. TXT x6408
f. TXT x6409
f. TXT x6410
f. TXT x6411
f. TXT x6412
f. TXT x6413
f. TXT x6414
f. TXT x6415
f. TXT x6416
f. TXT x6417
f. TXT x6418
f. TXT x6419
f. TXT x6420
f. TXT x6421
f. TXT x6422
f. TXT x6423
f. TXT x6424
f. TXT x6425
f. TXT x6426
f. TXT x6427
f. TXT x6428
f. TXT x6429
f. TXT x6430
f. TXT x6431
f. TXT x6432
f. TXT x6433
f. TXT x6434
f. TXT x6435
f. TXT x6436
f. TXT x6437
f. TXT x6438
f. TXT x6439
f. TXT x6440
f. TXT x6441
f. TXT x6442
f. TXT x6443
f. TXT x6444
f. TXT x6445
f. TXT x6446
f. TXT x6447
f. TXT x6448
f. TXT x6449
f. TXT x6450
f. TXT x6451
f. TXT x6452
f. TXT x6453
f. TXT x6454
f. TXT x6455
f. TXT x6456
f. TXT x6457
f. TXT x6458
f. TXT x6459
f. TXT x6460
f. TXT x6461
f. TXT x6462
f. TXT x6463
00-.a-. NS *b-b yxbc xc-*
f. TXT x6465
f. TXT x6466
f. TXT x6467
f. TXT x6468
f. TXT x6469
f. TXT x6470
f. TXT x6471
f. TXT x6472
f. TXT x6473
f. TXT x6474
f. TXT x6475
f. TXT x6476
f. TXT x6477
f. TXT x6478
f. TXT x6479
f. TXT x6480
f. TXT x6481
f. TXT x6482
f. TXT x6483
f. TXT x6484
f. TXT x6485
f. TXT x6486
f. TXT x6487
f. TXT x6488
f. TXT x6489
f. TXT x6490
f. TXT x6491
f. TXT x6492
f. TXT x6493
f. TXT x6494
f. TXT x6495
f. TXT x6496
f. TXT x6497
f. TXT x6498
f. TXT x6499
f. TXT x6500
f. TXT x6501
f. TXT x6502
f. TXT x6503
f. TXT x6504
f. TXT x6505
f. TXT x6506
f. TXT x6507
f. TXT x6508
f. TXT x6509
f. TXT x6510
f. TXT x6511
f. TXT x6512
f. TXT x6513
f. TXT x6514
f. TXT x6515
f. TXT x6516
f. TXT x6517
f. TXT x6518
f. TXT x6519
f. TXT x6520
f. TXT x6521
f. TXT x6522
f. TXT x6523
f. TXT x6524
f. TXT x6525
f. TXT x6526
f. TXT x6527
 A c*x z
f. TXT x6529
f. TXT x6530
f. TXT x6531
f. TXT x6532
f. TXT x6533
f. TXT x6534
f. TXT x6535
f. TXT x6536
f. TXT x6537
f. TXT x6538
f. TXT x6539
f. TXT x6540
f. TXT x6541
f. TXT x6542
f. TXT x6543
f. TXT x6544
f. TXT x6545
f. TXT x6546
f. TXT x6547
f. TXT x6548
f. TXT x6549
f. TXT x6550
f. TXT x6551
f. TXT x6552
f. TXT x6553
f. TXT x6554
f. TXT x6555
f. TXT x6556
f. TXT x6557
f. TXT x6558
f. TXT x6559
f. TXT x6560
f. TXT x6561
f. TXT x6562
f. TXT x6563
f. TXT x6564
f. TXT x6565
f. TXT x6566
f. TXT x6567
f. TXT x6568
f. TXT x6569
f. TXT x6570
f. TXT x6571
f. TXT x6572
f. TXT x6573
f. TXT x6574
f. TXT x6575
f. TXT x6576
f. TXT x6577
f. TXT x6578
f. TXT x6579
f. TXT x6580
f. TXT x6581
f. TXT x6582
f. TXT x6583
f. TXT x6584
f. TXT x6585
f. TXT x6586
f. TXT x6587
f. TXT x6588
f. TXT x6589
f. TXT x6590
f. TXT x6591
$ORIGIN 0zy.*z-.
f. TXT x6593
f. TXT x6594
f. TXT x6595
f. TXT x6596
f. TXT x6597
f. TXT x6598
f. TXT x6599
f. TXT x6600
f. TXT x6601
f. TXT x6602
f. TXT x6603
f. TXT x6604
f. TXT x6605
f. TXT x6606
f. TXT x6607
f. TXT x6608
f. TXT x6609
f. TXT x6610
f. TXT x6611
f. TXT x6612
f. TXT x6613
f. TXT x6614
f. TXT x6615
f. TXT x6616
f. TXT x6617
f. TXT x6618
f. TXT x6619
f. TXT x6620
f. TXT x6621
f. TXT x6622
f. TXT x6623
f. TXT x6624
f. TXT x6625
f. TXT x6626
f. TXT x6627
f. TXT x6628
f. TXT x6629
f. TXT x6630
f. TXT x6631
f. TXT x6632
f. TXT x6633
f. TXT x6634
f. TXT x6635
f. TXT x6636
f. TXT x6637
f. TXT x6638
f. TXT x6639
f. TXT x6640
f. TXT x6641
f. TXT x6642
f. TXT x6643
f. TXT x6644
f. TXT x6645
f. TXT x6646
f. TXT x6647
f. TXT x6648
f. TXT x6649
f. TXT x6650
f. TXT x6651
f. TXT x6652
f. TXT x6653
f. TXT x6654
f. TXT x6655
@ NS y* *ac
f. TXT x6657
f. TXT x6658
f. TXT x6659
f. TXT x6660
f. TXT x6661
f. TXT x6662
f. TXT x6663
f. TXT x6664
f. TXT x6665
f. TXT x6666
f. TXT x6667
f. TXT x6668
f. TXT x6669
f. TXT x6670
f. TXT x6671
f. TXT x6672
f. TXT x6673
f. TXT x6674
f. TXT x6675
f. TXT x6676
f. TXT x6677
f. TXT x6678
f. TXT x6679
f. TXT x6680
f. TXT x6681
f. TXT x6682
f. TXT x6683
f. TXT x6684
f. TXT x6685
f. TXT x6686
f. TXT x6687
f. TXT x6688
f. TXT x6689
f. TXT x6690
f. TXT x6691
f. TXT x6692
f. TXT x6693
f. TXT x6694
f. TXT x6695
f. TXT x6696
f. TXT x6697
f. TXT x6698
f. TXT x6699
f. TXT x6700
f. TXT x6701
f. TXT x6702
f. TXT x6703
f. TXT x6704
f. TXT x6705
f. TXT x6706
f. TXT x6707
f. TXT x6708
f. TXT x6709
f. TXT x6710
f. TXT x6711
f. TXT x6712
f. TXT x6713
f. TXT x6714
f. TXT x6715
f. TXT x6716
f. TXT x6717
f. TXT x6718
f. TXT x6719
; x
f. TXT x6721
f. TXT x6722
f. TXT x6723
f. TXT x6724
f. TXT x6725
f. TXT x6726
f. TXT x6727
f. TXT x6728
f. TXT x6729
f. TXT x6730
f. TXT x6731
f. TXT x6732
f. TXT x6733
f. TXT x6734
f. TXT x6735
f. TXT x6736
f. TXT x6737
f. TXT x6738
f. TXT x6739
f. TXT x6740
f. TXT x6741
f. TXT x6742
f. TXT x6743
f. TXT x6744
f. TXT x6745
f. TXT x6746
f. TXT x6747
f. TXT x6748
f. TXT x6749
f. TXT x6750
f. TXT x6751
f. TXT x6752
f. TXT x6753
f. TXT x6754
f. TXT x6755
f. TXT x6756
f. TXT x6757
f. TXT x6758
f. TXT x6759
f. TXT x6760
f. TXT x6761
f. TXT x6762
f. TXT x6763
f. TXT x6764
f. TXT x6765
f. TXT x6766
f. TXT x6767
f. TXT x6768
f. TXT x6769
f. TXT x6770
f. TXT x6771
f. TXT x6772
f. TXT x6773
f. TXT x6774
f. TXT x6775
f. TXT x6776
f. TXT x6777
f. TXT x6778
f. TXT x6779
f. TXT x6780
f. TXT x6781
f. TXT x6782
f. TXT x6783

f. TXT x6785
f. TXT x6786
f. TXT x6787
f. TXT x6788
f. TXT x6789
f. TXT x6790
f. TXT x6791
f. TXT x6792
f. TXT x6793
f. TXT x6794
f. TXT x6795
f. TXT x6796
f. TXT x6797
f. TXT x6798
f. TXT x6799
f. TXT x6800
f. TXT x6801
f. TXT x6802
f. TXT x6803
f. TXT x6804
f. TXT x6805
f. TXT x6806
f. TXT x6807
f. TXT x6808
f. TXT x6809
f. TXT x6810
f. TXT x6811
f. TXT x6812
f. TXT x6813
f. TXT x6814
f. TXT x6815
f. TXT x6816
f. TXT x6817
f. TXT x6818
f. TXT x6819
f. TXT x6820
f. TXT x6821
f. TXT x6822
f. TXT x6823
f. TXT x6824
f. TXT x6825
f. TXT x6826
f. TXT x6827
f. TXT x6828
f. TXT x6829
f. TXT x6830
f. TXT x6831
f. TXT x6832
f. TXT x6833
f. TXT x6834
f. TXT x6835
f. TXT x6836
f. TXT x6837
f. TXT x6838
f. TXT x6839
f. TXT x6840
f. TXT x6841
f. TXT x6842
f. TXT x6843
f. TXT x6844
f. TXT x6845
f. TXT x6846
f. TXT x6847
cbc. NS y y* zb-b
f. TXT x6849
f. TXT x6850
f. TXT x6851
f. TXT x6852
f. TXT x6853
f. TXT x6854
f. TXT x6855
f. TXT x6856
f. TXT x6857
f. TXT x6858
f. TXT x6859
f. TXT x6860
f. TXT x6861
f. TXT x6862
f. TXT x6863
f. TXT x6864
f. TXT x6865
f. TXT x6866
f. TXT x6867
f. TXT x6868
f. TXT x6869
f. TXT x6870
f. TXT x6871
f. TXT x6872
f. TXT x6873
f. TXT x6874
f. TXT x6875
f. TXT x6876
f. TXT x6877
f. TXT x6878
f. TXT x6879
f. TXT x6880
f. TXT x6881
f. TXT x6882
f. TXT x6883
f. TXT x6884
f. TXT x6885
f. TXT x6886
f. TXT x6887
f. TXT x6888
f. TXT x6889
f. TXT x6890
f. TXT x6891
f. TXT x6892
f. TXT x6893
f. TXT x6894
f. TXT x6895
f. TXT x6896
f. TXT x6897
f. TXT x6898
f. TXT x6899
f. TXT x6900
f. TXT x6901
f. TXT x6902
f. TXT x6903
f. TXT x6904
f. TXT x6905
f. TXT x6906
f. TXT x6907
f. TXT x6908
f. TXT x6909
f. TXT x6910
f. TXT x6911
@ TXT cc
f. TXT x6913
f. TXT x6914
f. TXT x6915
f. TXT x6916
f. TXT x6917
f. TXT x6918
f. TXT x6919
f. TXT x6920
f. TXT x6921
f. TXT x6922
f. TXT x6923
f. TXT x6924
f. TXT x6925
f. TXT x6926
f. TXT x6927
f. TXT x6928
f. TXT x6929
f. TXT x6930
f. TXT x6931
f. TXT x6932
f. TXT x6933
f. TXT x6934
f. TXT x6935
f. TXT x6936
f. TXT x6937
f. TXT x6938
f. TXT x6939
f. TXT x6940
f. TXT x6941
f. TXT x6942
f. TXT x6943
f. TXT x6944
f. TXT x6945
f. TXT x6946
f. TXT x6947
f. TXT x6948
f. TXT x6949
f. TXT x6950
f. TXT x6951
f. TXT x6952
f. TXT x6953
f. TXT x6954
f. TXT x6955
f. TXT x6956
f. TXT x6957
f. TXT x6958
f. TXT x6959
f. TXT x6960
f. TXT x6961
f. TXT x6962
f. TXT x6963
f. TXT x6964
f. TXT x6965
f. TXT x6966
f. TXT x6967
f. TXT x6968
f. TXT x6969
f. TXT x6970
f. TXT x6971
f. TXT x6972
f. TXT x6973
f. TXT x6974
f. TXT x6975
a-c. TXT -
f. TXT x6977
f. TXT x6978
f. TXT x6979
f. TXT x6980
f. TXT x6981
f. TXT x6982
f. TXT x6983
f. TXT x6984
f. TXT x6985
f. TXT x6986
f. TXT x6987
f. TXT x6988
f. TXT x6989
f. TXT x6990
f. TXT x6991
f. TXT x6992
f. TXT x6993
f. TXT x6994
f. TXT x6995
f. TXT x6996
f. TXT x6997
f. TXT x6998
f. TXT x6999
f. TXT x7000
f. TXT x7001
f. TXT x7002
f. TXT x7003
f. TXT x7004
f. TXT x7005
f. TXT x7006
f. TXT x7007
f. TXT x7008
f. TXT x7009
f. TXT x7010
f. TXT x7011
f. TXT x7012
f. TXT x7013
f. TXT x7014
f. TXT x7015
f. TXT x7016
f. TXT x7017
f. TXT x7018
f. TXT x7019
f. TXT x7020
f. TXT x7021
f. TXT x7022
f. TXT x7023
f. TXT x7024
f. TXT x7025
f. TXT x7026
f. TXT x7027
f. TXT x7028
f. TXT x7029
f. TXT x7030
f. TXT x7031
f. TXT x7032
f. TXT x7033
f. TXT x7034
f. TXT x7035
f. TXT x7036
f. TXT x7037
f. TXT x7038
f. TXT x7039
 A 0-ax z-0x z-b
f. TXT x7041
f. TXT x7042
f. TXT x7043
f. TXT x7044
f. TXT x7045
f. TXT x7046
f. TXT x7047
f. TXT x7048
f. TXT x7049
f. TXT x7050
f. TXT x7051
f. TXT x7052
f. TXT x7053
f. TXT x7054
f. TXT x7055
f. TXT x7056
f. TXT x7057
f. TXT x7058
f. TXT x7059
f. TXT x7060
f. TXT x7061
f. TXT x7062
f. TXT x7063
f. TXT x7064
f. TXT x7065
f. TXT x7066
f. TXT x7067
f. TXT x7068
f. TXT x7069
f. TXT x7070
f. TXT x7071
f. TXT x7072
f. TXT x7073
f. TXT x7074
f. TXT x7075
f. TXT x7076
f. TXT x7077
f. TXT x7078
f. TXT x7079
f. TXT x7080
f. TXT x7081
f. TXT x7082
f. TXT x7083
f. TXT x7084
f. TXT x7085
f. TXT x7086
f. TXT x7087
f. TXT x7088
f. TXT x7089
f. TXT x7090
f. TXT x7091
f. TXT x7092
f. TXT x7093
f. TXT x7094
f. TXT x7095
f. TXT x7096
f. TXT x7097
f. TXT x7098
f. TXT x7099
f. TXT x7100
f. TXT x7101
f. TXT x7102
f. TXT x7103
 TXT z
f. TXT x7105
f. TXT x7106
f. TXT x7107
f. TXT x7108
f. TXT x7109
f. TXT x7110
f. TXT x7111
f. TXT x7112
f. TXT x7113
f. TXT x7114
f. TXT x7115
f. TXT x7116
f. TXT x7117
f. TXT x7118
f. TXT x7119
f. TXT x7120
f. TXT x7121
f. TXT x7122
f. TXT x7123
f. TXT x7124
f. TXT x7125
f. TXT x7126
f. TXT x7127
f. TXT x7128
f. TXT x7129
f. TXT x7130
f. TXT x7131
f. TXT x7132
f. TXT x7133
f. TXT x7134
f. TXT x7135
f. TXT x7136
f. TXT x7137
f. TXT x7138
f. TXT x7139
f. TXT x7140
f. TXT x7141
f. TXT x7142
f. TXT x7143
f. TXT x7144
f. TXT x7145
f. TXT x7146
f. TXT x7147
f. TXT x7148
f. TXT x7149
f. TXT x7150
f. TXT x7151
f. TXT x7152
f. TXT x7153
f. TXT x7154
f. TXT x7155
f. TXT x7156
f. TXT x7157
f. TXT x7158
f. TXT x7159
f. TXT x7160
f. TXT x7161
f. TXT x7162
f. TXT x7163
f. TXT x7164
f. TXT x7165
f. TXT x7166
f. TXT x7167
cx. NS *
f. TXT x7169
f. TXT x7170
f. TXT x7171
f. TXT x7172
f. TXT x7173
f. TXT x7174
f. TXT x7175
f. TXT x7176
f. TXT x7177
f. TXT x7178
f. TXT x7179
f. TXT x7180
f. TXT x7181
f. TXT x7182
f. TXT x7183
f. TXT x7184
f. TXT x7185
f. TXT x7186
f. TXT x7187
f. TXT x7188
f. TXT x7189
f. TXT x7190
f. TXT x7191
f. TXT x7192
f. TXT x7193
f. TXT x7194
f. TXT x7195
f. TXT x7196
f. TXT x7197
f. TXT x7198
f. TXT x7199
f. TXT x7200
f. TXT x7201
f. TXT x7202
f. TXT x7203
f. TXT x7204
f. TXT x7205
f. TXT x7206
f. TXT x7207
f. TXT x7208
f. TXT x7209
f. TXT x7210
f. TXT x7211
f. TXT x7212
f. TXT x7213
f. TXT x7214
f. TXT x7215
f. TXT x7216
f. TXT x7217
f. TXT x7218
f. TXT x7219
f. TXT x7220
f. TXT x7221
f. TXT x7222
f. TXT x7223
f. TXT x7224
f. TXT x7225
f. TXT x7226
f. TXT x7227
f. TXT x7228
f. TXT x7229
f. TXT x7230
f. TXT x7231
-x A xa0 0
f. TXT x7233
f. TXT x7234
f. TXT x7235
f. TXT x7236
f. TXT x7237
f. TXT x7238
f. TXT x7239
f. TXT x7240
f. TXT x7241
f. TXT x7242
f. TXT x7243
f. TXT x7244
f. TXT x7245
f. TXT x7246
f. TXT x7247
f. TXT x7248
f. TXT x7249
f. TXT x7250
f. TXT x7251
f. TXT x7252
f. TXT x7253
f. TXT x7254
f. TXT x7255
f. TXT x7256
f. TXT x7257
f. TXT x7258
f. TXT x7259
f. TXT x7260
f. TXT x7261
f. TXT x7262
f. TXT x7263
f. TXT x7264
f. TXT x7265
f. TXT x7266
f. TXT x7267
f. TXT x7268
f. TXT x7269
f. TXT x7270
f. TXT x7271
f. TXT x7272
f. TXT x7273
f. TXT x7274
f. TXT x7275
f. TXT x7276
f. TXT x7277
f. TXT x7278
f. TXT x7279
f. TXT x7280
f. TXT x7281
f. TXT x7282
f. TXT x7283
f. TXT x7284
f. TXT x7285
f. TXT x7286
f. TXT x7287
f. TXT x7288
f. TXT x7289
f. TXT x7290
f. TXT x7291
f. TXT x7292
f. TXT x7293
f. TXT x7294
f. TXT x7295
x-xx TXT 0cb x b
f. TXT x7297
f. TXT x7298
f. TXT x7299
f. TXT x7300
f. TXT x7301
f. TXT x7302
f. TXT x7303
f. TXT x7304
f. TXT x7305
f. TXT x7306
f. TXT x7307
f. TXT x7308
f. TXT x7309
f. TXT x7310
f. TXT x7311
f. TXT x7312
f. TXT x7313
f. TXT x7314
f. TXT x7315
f. TXT x7316
f. TXT x7317
f. TXT x7318
f. TXT x7319
f. TXT x7320
f. TXT x7321
f. TXT x7322
f. TXT x7323
f. TXT x7324
f. TXT x7325
f. TXT x7326
f. TXT x7327
f. TXT x7328
f. TXT x7329
f. TXT x7330
f. TXT x7331
f. TXT x7332
f. TXT x7333
f. TXT x7334
f. TXT x7335
f. TXT x7336
f. TXT x7337
f. TXT x7338
f. TXT x7339
f. TXT x7340
f. TXT x7341
f. TXT x7342
f. TXT x7343
f. TXT x7344
f. TXT x7345
f. TXT x7346
f. TXT x7347
f. TXT x7348
f. TXT x7349
f. TXT x7350
f. TXT x7351
f. TXT x7352
f. TXT x7353
f. TXT x7354
f. TXT x7355
f. TXT x7356
f. TXT x7357
f. TXT x7358
f. TXT x7359

f. TXT x7361
f. TXT x7362
f. TXT x7363
f. TXT x7364
f. TXT x7365
f. TXT x7366
f. TXT x7367
f. TXT x7368
f. TXT x7369
f. TXT x7370
f. TXT x7371
f. TXT x7372
f. TXT x7373
f. TXT x7374
f. TXT x7375
f. TXT x7376
f. TXT x7377
f. TXT x7378
f. TXT x7379
f. TXT x7380
f. TXT x7381
f. TXT x7382
f. TXT x7383
f. TXT x7384
f. TXT x7385
f. TXT x7386
f. TXT x7387
f. TXT x7388
f. TXT x7389
f. TXT x7390
f. TXT x7391
f. TXT x7392
f. TXT x7393
f. TXT x7394
f. TXT x7395
f. TXT x7396
f. TXT x7397
f. TXT x7398
f. TXT x7399
f. TXT x7400
f. TXT x7401
f. TXT x7402
f. TXT x7403
f. TXT x7404
f. TXT x7405
f. TXT x7406
f. TXT x7407
f. TXT x7408
f. TXT x7409
f. TXT x7410
f. TXT x7411
f. TXT x7412
f. TXT x7413
f. TXT x7414
f. TXT x7415
f. TXT x7416
f. TXT x7417
f. TXT x7418
f. TXT x7419
f. TXT x7420
f. TXT x7421
f. TXT x7422
f. TXT x7423
y.0xz. A b
f. TXT x7425
f. TXT x7426
f. TXT x7427
f. TXT x7428
f. TXT x7429
f. TXT x7430
f. TXT x7431
f. TXT x7432
f. TXT x7433
f. TXT x7434
f. TXT x7435
f. TXT x7436
f. TXT x7437
f. TXT x7438
f. TXT x7439
f. TXT x7440
f. TXT x7441
f. TXT x7442
f. TXT x7443
f. TXT x7444
f. TXT x7445
f. TXT x7446
f. TXT x7447
f. TXT x7448
f. TXT x7449
f. TXT x7450
f. TXT x7451
f. TXT x7452
f. TXT x7453
f. TXT x7454
f. TXT x7455
f. TXT x7456
f. TXT x7457
f. TXT x7458
f. TXT x7459
f. TXT x7460
f. TXT x7461
f. TXT x7462
f. TXT x7463
f. TXT x7464
f. TXT x7465
f. TXT x7466
f. TXT x7467
f. TXT x7468
f. TXT x7469
f. TXT x7470
f. TXT x7471
f. TXT x7472
f. TXT x7473
f. TXT x7474
f. TXT x7475
f. TXT x7476
f. TXT x7477
f. TXT x7478
f. TXT x7479
f. TXT x7480
f. TXT x7481
f. TXT x7482
f. TXT x7483
f. TXT x7484
f. TXT x7485
f. TXT x7486
f. TXT x7487
-z.a0. TXT -xa
f. TXT x7489
f. TXT x7490
f. TXT x7491
f. TXT x7492
f. TXT x7493
f. TXT x7494
f. TXT x7495
f. TXT x7496
f. TXT x7497
f. TXT x7498
f. TXT x7499
f. TXT x7500
f. TXT x7501
f. TXT x7502
f. TXT x7503
f. TXT x7504
f. TXT x7505
f. TXT x7506
f. TXT x7507
f. TXT x7508
f. TXT x7509
f. TXT x7510
f. TXT x7511
f. TXT x7512
f. TXT x7513
f. TXT x7514
f. TXT x7515
f. TXT x7516
f. TXT x7517
f. TXT x7518
f. TXT x7519
f. TXT x7520
f. TXT x7521
f. TXT x7522
f. TXT x7523
f. TXT x7524
f. TXT x7525
f. TXT x7526
f. TXT x7527
f. TXT x7528
f. TXT x7529
f. TXT x7530
f. TXT x7531
f. TXT x7532
f. TXT x7533
f. TXT x7534
f. TXT x7535
f. TXT x7536
f. TXT x7537
f. TXT x7538
f. TXT x7539
f. TXT x7540
f. TXT x7541
f. TXT x7542
f. TXT x7543
f. TXT x7544
f. TXT x7545
f. TXT x7546
f. TXT x7547
f. TXT x7548
f. TXT x7549
f. TXT x7550
f. TXT x7551
yxay. NS *xzb --
f. TXT x7553
f. TXT x7554
f. TXT x7555
f. TXT x7556
f. TXT x7557
f. TXT x7558
f. TXT x7559
f. TXT x7560
f. TXT x7561
f. TXT x7562
f. TXT x7563
f. TXT x7564
f. TXT x7565
f. TXT x7566
f. TXT x7567
f. TXT x7568
f. TXT x7569
f. TXT x7570
f. TXT x7571
f. TXT x7572
f. TXT x7573
f. TXT x7574
f. TXT x7575
f. TXT x7576
f. TXT x7577
f. TXT x7578
f. TXT x7579
f. TXT x7580
f. TXT x7581
f. TXT x7582
f. TXT x7583
f. TXT x7584
f. TXT x7585
f. TXT x7586
f. TXT x7587
f. TXT x7588
f. TXT x7589
f. TXT x7590
f. TXT x7591
f. TXT x7592
f. TXT x7593
f. TXT x7594
f. TXT x7595
f. TXT x7596
f. TXT x7597
f. TXT x7598
f. TXT x7599
f. TXT x7600
f. TXT x7601
f. TXT x7602
f. TXT x7603
f. TXT x7604
f. TXT x7605
f. TXT x7606
f. TXT x7607
f. TXT x7608
f. TXT x7609
f. TXT x7610
f. TXT x7611
f. TXT x7612
f. TXT x7613
f. TXT x7614
f. TXT x7615
; 0y
f. TXT x7617
f. TXT x7618
f. TXT x7619
f. TXT x7620
f. TXT x7621
f. TXT x7622
f. TXT x7623
f. TXT x7624
f. TXT x7625
f. TXT x7626
f. TXT x7627
f. TXT x7628
f. TXT x7629
f. TXT x7630
f. TXT x7631
f. TXT x7632
f. TXT x7633
f. TXT x7634
f. TXT x7635
f. TXT x7636
f. TXT x7637
f. TXT x7638
f. TXT x7639
f. TXT x7640
f. TXT x7641
f. TXT x7642
f. TXT x7643
f. TXT x7644
f. TXT x7645
f. TXT x7646
f. TXT x7647
f. TXT x7648
f. TXT x7649
f. TXT x7650
f. TXT x7651
f. TXT x7652
f. TXT x7653
f. TXT x7654
f. TXT x7655
f. TXT x7656
f. TXT x7657
f. TXT x7658
f. TXT x7659
f. TXT x7660
f. TXT x7661
f. TXT x7662
f. TXT x7663
f. TXT x7664
f. TXT x7665
f. TXT x7666
f. TXT x7667
f. TXT x7668
f. TXT x7669
f. TXT x7670
f. TXT x7671
f. TXT x7672
f. TXT x7673
f. TXT x7674
f. TXT x7675
f. TXT x7676
f. TXT x7677
f. TXT x7678
f. TXT x7679
@ NS zbc b a
f. TXT x7681
f. TXT x7682
f. TXT x7683
f. TXT x7684
f. TXT x7685
f. TXT x7686
f. TXT x7687
f. TXT x7688
f. TXT x7689
f. TXT x7690
f. TXT x7691
f. TXT x7692
f. TXT x7693
f. TXT x7694
f. TXT x7695
f. TXT x7696
f. TXT x7697
f. TXT x7698
f. TXT x7699
f. TXT x7700
f. TXT x7701
f. TXT x7702
f. TXT x7703
f. TXT x7704
f. TXT x7705
f. TXT x7706
f. TXT x7707
f. TXT x7708
f. TXT x7709
f. TXT x7710
f. TXT x7711
f. TXT x7712
f. TXT x7713
f. TXT x7714
f. TXT x7715
f. TXT x7716
f. TXT x7717
f. TXT x7718
f. TXT x7719
f. TXT x7720
f. TXT x7721
f. TXT x7722
f. TXT x7723
f. TXT x7724
f. TXT x7725
f. TXT x7726
f. TXT x7727
f. TXT x7728
f. TXT x7729
f. TXT x7730
f. TXT x7731
f. TXT x7732
f. TXT x7733
f. TXT x7734
f. TXT x7735
f. TXT x7736
f. TXT x7737
f. TXT x7738
f. TXT x7739
f. TXT x7740
f. TXT x7741
f. TXT x7742
f. TXT x7743
*c TXT zxc b c
f. TXT x7745
f. TXT x7746
f. TXT x7747
f. TXT x7748
f. TXT x7749
f. TXT x7750
f. TXT x7751
f. TXT x7752
f. TXT x7753
f. TXT x7754
f. TXT x7755
f. TXT x7756
f. TXT x7757
f. TXT x7758
f. TXT x7759
f. TXT x7760
f. TXT x7761
f. TXT x7762
f. TXT x7763
f. TXT x7764
f. TXT x7765
f. TXT x7766
f. TXT x7767
f. TXT x7768
f. TXT x7769
f. TXT x7770
f. TXT x7771
f. TXT x7772
f. TXT x7773
f. TXT x7774
f. TXT x7775
f. TXT x7776
f. TXT x7777
f. TXT x7778
f. TXT x7779
f. TXT x7780
f. TXT x7781
f. TXT x7782
f. TXT x7783
f. TXT x7784
f. TXT x7785
f. TXT x7786
f. TXT x7787
f. TXT x7788
f. TXT x7789
f. TXT x7790
f. TXT x7791
f. TXT x7792
f. TXT x7793
f. TXT x7794
f. TXT x7795
f. TXT x7796
f. TXT x7797
f. TXT x7798
f. TXT x7799
f. TXT x7800
f. TXT x7801
f. TXT x7802
f. TXT x7803
f. TXT x7804
f. TXT x7805
f. TXT x7806
f. TXT x7807
; x-
f. TXT x7809
f. TXT x7810
f. TXT x7811
f. TXT x7812
f. TXT x7813
f. TXT x7814
f. TXT x7815
f. TXT x7816
f. TXT x7817
f. TXT x7818
f. TXT x7819
f. TXT x7820
f. TXT x7821
f. TXT x7822
f. TXT x7823
f. TXT x7824
f. TXT x7825
f. TXT x7826
f. TXT x7827
f. TXT x7828
f. TXT x7829
f. TXT x7830
f. TXT x7831
f. TXT x7832
f. TXT x7833
f. TXT x7834
f. TXT x7835
f. TXT x7836
f. TXT x7837
f. TXT x7838
f. TXT x7839
f. TXT x7840
f. TXT x7841
f. TXT x7842
f. TXT x7843
f. TXT x7844
f. TXT x7845
f. TXT x7846
f. TXT x7847
f. TXT x7848
f. TXT x7849
f. TXT x7850
f. TXT x7851
f. TXT x7852
f. TXT x7853
f. TXT x7854
f. TXT x7855
f. TXT x7856
f. TXT x7857
f. TXT x7858
f. TXT x7859
f. TXT x7860
f. TXT x7861
f. TXT x7862
f. TXT x7863
f. TXT x7864
f. TXT x7865
f. TXT x7866
f. TXT x7867
f. TXT x7868
f. TXT x7869
f. TXT x7870
f. TXT x7871
-**. NS bxxz
f. TXT x7873
f. TXT x7874
f. TXT x7875
f. TXT x7876
f. TXT x7877
f. TXT x7878
f. TXT x7879
f. TXT x7880
f. TXT x7881
f. TXT x7882
f. TXT x7883
f. TXT x7884
f. TXT x7885
f. TXT x7886
f. TXT x7887
f. TXT x7888
f. TXT x7889
f. TXT x7890
f. TXT x7891
f. TXT x7892
f. TXT x7893
f. TXT x7894
f. TXT x7895
f. TXT x7896
f. TXT x7897
f. TXT x7898
f. TXT x7899
f. TXT x7900
f. TXT x7901
f. TXT x7902
f. TXT x7903
f. TXT x7904
f. TXT x7905
f. TXT x7906
f. TXT x7907
f. TXT x7908
f. TXT x7909
f. TXT x7910
f. TXT x7911
f. TXT x7912
f. TXT x7913
f. TXT x7914
f. TXT x7915
f. TXT x7916
f. TXT x7917
f. TXT x7918
f. TXT x7919
f. TXT x7920
f. TXT x7921
f. TXT x7922
f. TXT x7923
f. TXT x7924
f. TXT x7925
f. TXT x7926
f. TXT x7927
f. TXT x7928
f. TXT x7929
f. TXT x7930
f. TXT x7931
f. TXT x7932
f. TXT x7933
f. TXT x7934
f. TXT x7935
@ A x
f. TXT x7937
f. TXT x7938
f. TXT x7939
f. TXT x7940
f. TXT x7941
f. TXT x7942
f. TXT x7943
f. TXT x7944
f. TXT x7945
f. TXT x7946
f. TXT x7947
f. TXT x7948
f. TXT x7949
f. TXT x7950
f. TXT x7951
f. TXT x7952
f. TXT x7953
f. TXT x7954
f. TXT x7955
f. TXT x7956
f. TXT x7957
f. TXT x7958
f. TXT x7959
f. TXT x7960
f. TXT x7961
f. TXT x7962
f. TXT x7963
f. TXT x7964
f. TXT x7965
f. TXT x7966
f. TXT x7967
f. TXT x7968
f. TXT x7969
f. TXT x7970
f. TXT x7971
f. TXT x7972
f. TXT x7973
f. TXT x7974
f. TXT x7975
f. TXT x7976
f. TXT x7977
f. TXT x7978
f. TXT x7979
f. TXT x7980
f. TXT x7981
f. TXT x7982
f. TXT x7983
f. TXT x7984
f. TXT x7985
f. TXT x7986
f. TXT x7987
f. TXT x7988
f. TXT x7989
f. TXT x7990
f. TXT x7991
f. TXT x7992
f. TXT x7993
f. TXT x7994
f. TXT x7995
f. TXT x7996
f. TXT x7997
f. TXT x7998
f. TXT x7999

f. TXT x8001
f. TXT x8002
f. TXT x8003
f. TXT x8004
f. TXT x8005
f. TXT x8006
f. TXT x8007
f. TXT x8008
f. TXT x8009
f. TXT x8010
f. TXT x8011
f. TXT x8012
f. TXT x8013
f. TXT x8014
f. TXT x8015
f. TXT x8016
f. TXT x8017
f. TXT x8018
f. TXT x8019
f. TXT x8020
f. TXT x8021
f. TXT x8022
f. TXT x8023
f. TXT x8024
f. TXT x8025
f. TXT x8026
f. TXT x8027
f. TXT x8028
f. TXT x8029
f. TXT x8030
f. TXT x8031
f. TXT x8032
f. TXT x8033
f. TXT x8034
f. TXT x8035
f. TXT x8036
f. TXT x8037
f. TXT x8038
f. TXT x8039
f. TXT x8040
f. TXT x8041
f. TXT x8042
f. TXT x8043
f. TXT x8044
f. TXT x8045
f. TXT x8046
f. TXT x8047
f. TXT x8048
f. TXT x8049
f. TXT x8050
f. TXT x8051
f. TXT x8052
f. TXT x8053
f. TXT x8054
f. TXT x8055
f. TXT x8056
f. TXT x8057
f. TXT x8058
f. TXT x8059
f. TXT x8060
f. TXT x8061
f. TXT x8062
f. TXT x8063
@ TXT zzy* ba x0z
f. TXT x8065
f. TXT x8066
f. TXT x8067
f. TXT x8068
f. TXT x8069
f. TXT x8070
f. TXT x8071
f. TXT x8072
f. TXT x8073
f. TXT x8074
f. TXT x8075
f. TXT x8076
f. TXT x8077
f. TXT x8078
f. TXT x8079
f. TXT x8080
f. TXT x8081
f. TXT x8082
f. TXT x8083
f. TXT x8084
f. TXT x8085
f. TXT x8086
f. TXT x8087
f. TXT x8088
f. TXT x8089
f. TXT x8090
f. TXT x8091
f. TXT x8092
f. TXT x8093
f. TXT x8094
f. TXT x8095
f. TXT x8096
f. TXT x8097
f. TXT x8098
f. TXT x8099
f. TXT x8100
f. TXT x8101
f. TXT x8102
f. TXT x8103
f. TXT x8104
f. TXT x8105
f. TXT x8106
f. TXT x8107
f. TXT x8108
f. TXT x8109
f. TXT x8110
f. TXT x8111
f. TXT x8112
f. TXT x8113
f. TXT x8114
f. TXT x8115
f. TXT x8116
f. TXT x8117
f. TXT x8118
f. TXT x8119
f. TXT x8120
f. TXT x8121
f. TXT x8122
f. TXT x8123
f. TXT x8124
f. TXT x8125
f. TXT x8126
f. TXT x8127
$ORIGIN cz--.00--.
f. TXT x8129
f. TXT x8130
f. TXT x8131
f. TXT x8132
f. TXT x8133
f. TXT x8134
f. TXT x8135
f. TXT x8136
f. TXT x8137
f. TXT x8138
f. TXT x8139
f. TXT x8140
f. TXT x8141
f. TXT x8142
f. TXT x8143
f. TXT x8144
f. TXT x8145
f. TXT x8146
f. TXT x8147
f. TXT x8148
f. TXT x8149
f. TXT x8150
f. TXT x8151
f. TXT x8152
f. TXT x8153
f. TXT x8154
f. TXT x8155
f. TXT x8156
f. TXT x8157
f. TXT x8158
f. TXT x8159
f. TXT x8160
f. TXT x8161
f. TXT x8162
f. TXT x8163
f. TXT x8164
f. TXT x8165
f. TXT x8166
f. TXT x8167
f. TXT x8168
f. TXT x8169
f. TXT x8170
f. TXT x8171
f. TXT x8172
f. TXT x8173
f. TXT x8174
f. TXT x8175
f. TXT x8176
f. TXT x8177
f. TXT x8178
f. TXT x8179
f. TXT x8180
f. TXT x8181
f. TXT x8182
f. TXT x8183
f. TXT x8184
f. TXT x8185
f. TXT x8186
f. TXT x8187
f. TXT x8188
f. TXT x8189
f. TXT x8190
f. TXT x8191

f. TXT x8193
f. TXT x8194
f. TXT x8195
f. TXT x8196
f. TXT x8197
f. TXT x8198
f. TXT x8199
f. TXT x8200
f. TXT x8201
f. TXT x8202
f. TXT x8203
f. TXT x8204
f. TXT x8205
f. TXT x8206
f. TXT x8207
f. TXT x8208
f. TXT x8209
f. TXT x8210
f. TXT x8211
f. TXT x8212
f. TXT x8213
f. TXT x8214
f. TXT x8215
f. TXT x8216
f. TXT x8217
f. TXT x8218
f. TXT x8219
f. TXT x8220
f. TXT x8221
f. TXT x8222
f. TXT x8223
f. TXT x8224
f. TXT x8225
f. TXT x8226
f. TXT x8227
f. TXT x8228
f. TXT x8229
f. TXT x8230
f. TXT x8231
f. TXT x8232
f. TXT x8233
f. TXT x8234
f. TXT x8235
f. TXT x8236
f. TXT x8237
f. TXT x8238
f. TXT x8239
f. TXT x8240
f. TXT x8241
f. TXT x8242
f. TXT x8243
f. TXT x8244
f. TXT x8245
f. TXT x8246
f. TXT x8247
f. TXT x8248
f. TXT x8249
f. TXT x8250
f. TXT x8251
f. TXT x8252
f. TXT x8253
f. TXT x8254
f. TXT x8255

f. TXT x8257
f. TXT x8258
f. TXT x8259
f. TXT x8260
f. TXT x8261
f. TXT x8262
f. TXT x8263
f. TXT x8264
f. TXT x8265
f. TXT x8266
f. TXT x8267
f. TXT x8268
f. TXT x8269
f. TXT x8270
f. TXT x8271
f. TXT x8272
f. TXT x8273
f. TXT x8274
f. TXT x8275
f. TXT x8276
f. TXT x8277
f. TXT x8278
f. TXT x8279
f. TXT x8280
f. TXT x8281
f. TXT x8282
f. TXT x8283
f. TXT x8284
f. TXT x8285
f. TXT x8286
f. TXT x8287
f. TXT x8288
f. TXT x8289
f. TXT x8290
f. TXT x8291
f. TXT x8292
f. TXT x8293
f. TXT x8294
f. TXT x8295
f. TXT x8296
f. TXT x8297
f. TXT x8298
f. TXT x8299
f. TXT x8300
f. TXT x8301
f. TXT x8302
f. TXT x8303
f. TXT x8304
f. TXT x8305
f. TXT x8306
f. TXT x8307
f. TXT x8308
f. TXT x8309
f. TXT x8310
f. TXT x8311
f. TXT x8312
f. TXT x8313
f. TXT x8314
f. TXT x8315
f. TXT x8316
f. TXT x8317
f. TXT x8318
f. TXT x8319
-b. TXT czxz - -
f. TXT x8321
f. TXT x8322
f. TXT x8323
f. TXT x8324
f. TXT x8325
f. TXT x8326
f. TXT x8327
f. TXT x8328
f. TXT x8329
f. TXT x8330
f. TXT x8331
f. TXT x8332
f. TXT x8333
f. TXT x8334
f. TXT x8335
f. TXT x8336
f. TXT x8337
f. TXT x8338
f. TXT x8339
f. TXT x8340
f. TXT x8341
f. TXT x8342
f. TXT x8343
f. TXT x8344
f. TXT x8345
f. TXT x8346
f. TXT x8347
f. TXT x8348
f. TXT x8349
f. TXT x8350
f. TXT x8351
f. TXT x8352
f. TXT x8353
f. TXT x8354
f. TXT x8355
f. TXT x8356
f. TXT x8357
f. TXT x8358
f. TXT x8359
f. TXT x8360
f. TXT x8361
f. TXT x8362
f. TXT x8363
f. TXT x8364
f. TXT x8365
f. TXT x8366
f. TXT x8367
f. TXT x8368
f. TXT x8369
f. TXT x8370
f. TXT x8371
f. TXT x8372
f. TXT x8373
f. TXT x8374
f. TXT x8375
f. TXT x8376
f. TXT x8377
f. TXT x8378
f. TXT x8379
f. TXT x8380
f. TXT x8381
f. TXT x8382
f. TXT x8383
a-0c A ac
f. TXT x8385
f. TXT x8386
f. TXT x8387
f. TXT x8388
f. TXT x8389
f. TXT x8390
f. TXT x8391
f. TXT x8392
f. TXT x8393
f. TXT x8394
f. TXT x8395
f. TXT x8396
f. TXT x8397
f. TXT x8398
f. TXT x8399
f. TXT x8400
f. TXT x8401
f. TXT x8402
f. TXT x8403
f. TXT x8404
f. TXT x8405
f. TXT x8406
f. TXT x8407
f. TXT x8408
f. TXT x8409
f. TXT x8410
f. TXT x8411
f. TXT x8412
f. TXT x8413
f. TXT x8414
f. TXT x8415
f. TXT x8416
f. TXT x8417
f. TXT x8418
f. TXT x8419
f. TXT x8420
f. TXT x8421
f. TXT x8422
f. TXT x8423
f. TXT x8424
f. TXT x8425
f. TXT x8426
f. TXT x8427
f. TXT x8428
f. TXT x8429
f. TXT x8430
f. TXT x8431
f. TXT x8432
f. TXT x8433
f. TXT x8434
f. TXT x8435
f. TXT x8436
f. TXT x8437
f. TXT x8438
f. TXT x8439
f. TXT x8440
f. TXT x8441
f. TXT x8442
f. TXT x8443
f. TXT x8444
f. TXT x8445
f. TXT x8446
f. TXT x8447
@ A aaay
f. TXT x8449
f. TXT x8450
f. TXT x8451
f. TXT x8452
f. TXT x8453
f. TXT x8454
f. TXT x8455
f. TXT x8456
f. TXT x8457
f. TXT x8458
f. TXT x8459
f. TXT x8460
f. TXT x8461
f. TXT x8462
f. TXT x8463
f. TXT x8464
f. TXT x8465
f. TXT x8466
f. TXT x8467
f. TXT x8468
f. TXT x8469
f. TXT x8470
f. TXT x8471
f. TXT x8472
f. TXT x8473
f. TXT x8474
f. TXT x8475
f. TXT x8476
f. TXT x8477
f. TXT x8478
f. TXT x8479
f. TXT x8480
f. TXT x8481
f. TXT x8482
f. TXT x8483
f. TXT x8484
f. TXT x8485
f. TXT x8486
f. TXT x8487
f. TXT x8488
f. TXT x8489
f. TXT x8490
f. TXT x8491
f. TXT x8492
f. TXT x8493
f. TXT x8494
f. TXT x8495
f. TXT x8496
f. TXT x8497
f. TXT x8498
f. TXT x8499
f. TXT x8500
f. TXT x8501
f. TXT x8502
f. TXT x8503
f. TXT x8504
f. TXT x8505
f. TXT x8506
f. TXT x8507
f. TXT x8508
f. TXT x8509
f. TXT x8510
f. TXT x8511
$TTL 1
f. TXT x8513
f. TXT x8514
f. TXT x8515
f. TXT x8516
f. TXT x8517
f. TXT x8518
f. TXT x8519
f. TXT x8520
f. TXT x8521
f. TXT x8522
f. TXT x8523
f. TXT x8524
f. TXT x8525
f. TXT x8526
f. TXT x8527
f. TXT x8528
f. TXT x8529
f. TXT x8530
f. TXT x8531
f. TXT x8532
f. TXT x8533
f. TXT x8534
f. TXT x8535
f. TXT x8536
f. TXT x8537
f. TXT x8538
f. TXT x8539
f. TXT x8540
f. TXT x8541
f. TXT x8542
f. TXT x8543
f. TXT x8544
f. TXT x8545
f. TXT x8546
f. TXT x8547
f. TXT x8548
f. TXT x8549
f. TXT x8550
f. TXT x8551
f. TXT x8552
f. TXT x8553
f. TXT x8554
f. TXT x8555
f. TXT x8556
f. TXT x8557
f. TXT x8558
f. TXT x8559
f. TXT x8560
f. TXT x8561
f. TXT x8562
f. TXT x8563
f. TXT x8564
f. TXT x8565
f. TXT x8566
f. TXT x8567
f. TXT x8568
f. TXT x8569
f. TXT x8570
f. TXT x8571
f. TXT x8572
f. TXT x8573
f. TXT x8574
f. TXT x8575
bc. TXT y
f. TXT x8577
f. TXT x8578
f. TXT x8579
f. TXT x8580
f. TXT x8581
f. TXT x8582
f. TXT x8583
f. TXT x8584
f. TXT x8585
f. TXT x8586
f. TXT x8587
f. TXT x8588
f. TXT x8589
f. TXT x8590
f. TXT x8591
f. TXT x8592
f. TXT x8593
f. TXT x8594
f. TXT x8595
f. TXT x8596
f. TXT x8597
f. TXT x8598
f. TXT x8599
f. TXT x8600
f. TXT x8601
f. TXT x8602
f. TXT x8603
f. TXT x8604
f. TXT x8605
f. TXT x8606
f. TXT x8607
f. TXT x8608
f. TXT x8609
f. TXT x8610
f. TXT x8611
f. TXT x8612
f. TXT x8613
f. TXT x8614
f. TXT x8615
f. TXT x8616
f. TXT x8617
f. TXT x8618
f. TXT x8619
f. TXT x8620
f. TXT x8621
f. TXT x8622
f. TXT x8623
f. TXT x8624
f. TXT x8625
f. TXT x8626
f. TXT x8627
f. TXT x8628
f. TXT x8629
f. TXT x8630
f. TXT x8631
f. TXT x8632
f. TXT x8633
f. TXT x8634
f. TXT x8635
f. TXT x8636
f. TXT x8637
f. TXT x8638
f. TXT x8639
00z0.yc*. A a0zy * -0
f. TXT x8641
f. TXT x8642
f. TXT x8643
f. TXT x8644
f. TXT x8645
f. TXT x8646
f. TXT x8647
f. TXT x8648
f. TXT x8649
f. TXT x8650
f. TXT x8651
f. TXT x8652
f. TXT x8653
f. TXT x8654
f. TXT x8655
f. TXT x8656
f. TXT x8657
f. TXT x8658
f. TXT x8659
f. TXT x8660
f. TXT x8661
f. TXT x8662
f. TXT x8663
f. TXT x8664
f. TXT x8665
f. TXT x8666
f. TXT x8667
f. TXT x8668
f. TXT x8669
f. TXT x8670
f. TXT x8671
f. TXT x8672
f. TXT x8673
f. TXT x8674
f. TXT x8675
f. TXT x8676
f. TXT x8677
f. TXT x8678
f. TXT x8679
f. TXT x8680
f. TXT x8681
f. TXT x8682
f. TXT x8683
f. TXT x8684
f. TXT x8685
f. TXT x8686
f. TXT x8687
f. TXT x8688
f. TXT x8689
f. TXT x8690
f. TXT x8691
f. TXT x8692
f. TXT x8693
f. TXT x8694
f. TXT x8695
f. TXT x8696
f. TXT x8697
f. TXT x8698
f. TXT x8699
f. TXT x8700
f. TXT x8701
f. TXT x8702
f. TXT x8703
$TTL 1
f. TXT x8705
f. TXT x8706
f. TXT x8707
f. TXT x8708
f. TXT x8709
f. TXT x8710
f. TXT x8711
f. TXT x8712
f. TXT x8713
f. TXT x8714
f. TXT x8715
f. TXT x8716
f. TXT x8717
f. TXT x8718
f. TXT x8719
f. TXT x8720
f. TXT x8721
f. TXT x8722
f. TXT x8723
f. TXT x8724
f. TXT x8725
f. TXT x8726
f. TXT x8727
f. TXT x8728
f. TXT x8729
f. TXT x8730
f. TXT x8731
f. TXT x8732
f. TXT x8733
f. TXT x8734
f. TXT x8735
f. TXT x8736
f. TXT x8737
f. TXT x8738
f. TXT x8739
f. TXT x8740
f. TXT x8741
f. TXT x8742
f. TXT x8743
f. TXT x8744
f. TXT x8745
f. TXT x8746
f. TXT x8747
f. TXT x8748
f. TXT x8749
f. TXT x8750
f. TXT x8751
f. TXT x8752
f. TXT x8753
f. TXT x8754
f. TXT x8755
f. TXT x8756
f. TXT x8757
f. TXT x8758
f. TXT x8759
f. TXT x8760
f. TXT x8761
f. TXT x8762
f. TXT x8763
f. TXT x8764
f. TXT x8765
f. TXT x8766
f. TXT x8767
 NS a x0z 0z
f. TXT x8769
f. TXT x8770
f. TXT x8771
f. TXT x8772
f. TXT x8773
f. TXT x8774
f. TXT x8775
f. TXT x8776
f. TXT x8777
f. TXT x8778
f. TXT x8779
f. TXT x8780
f. TXT x8781
f. TXT x8782
f. TXT x8783
f. TXT x8784
f. TXT x8785
f. TXT x8786
f. TXT x8787
f. TXT x8788
f. TXT x8789
f. TXT x8790
f. TXT x8791
f. TXT x8792
f. TXT x8793
f. TXT x8794
f. TXT x8795
f. TXT x8796
f. TXT x8797
f. TXT x8798
f. TXT x8799
f. TXT x8800
f. TXT x8801
f. TXT x8802
f. TXT x8803
f. TXT x8804
f. TXT x8805
f. TXT x8806
f. TXT x8807
f. TXT x8808
f. TXT x8809
f. TXT x8810
f. TXT x8811
f. TXT x8812
f. TXT x8813
f. TXT x8814
f. TXT x8815
f. TXT x8816
f. TXT x8817
f. TXT x8818
f. TXT x8819
f. TXT x8820
f. TXT x8821
f. TXT x8822
f. TXT x8823
f. TXT x8824
f. TXT x8825
f. TXT x8826
f. TXT x8827
f. TXT x8828
f. TXT x8829
f. TXT x8830
f. TXT x8831

f. TXT x8833
f. TXT x8834
f. TXT x8835
f. TXT x8836
f. TXT x8837
f. TXT x8838
f. TXT x8839
f. TXT x8840
f. TXT x8841
f. TXT x8842
f. TXT x8843
f. TXT x8844
f. TXT x8845
f. TXT x8846
f. TXT x8847
f. TXT x8848
f. TXT x8849
f. TXT x8850
f. TXT x8851
f. TXT x8852
f. TXT x8853
f. TXT x8854
f. TXT x8855
f. TXT x8856
f. TXT x8857
f. TXT x8858
f. TXT x8859
f. TXT x8860
f. TXT x8861
f. TXT x8862
f. TXT x8863
f. TXT x8864
f. TXT x8865
f. TXT x8866
f. TXT x8867
f. TXT x8868
f. TXT x8869
f. TXT x8870
f. TXT x8871
f. TXT x8872
f. TXT x8873
f. TXT x8874
f. TXT x8875
f. TXT x8876
f. TXT x8877
f. TXT x8878
f. TXT x8879
f. TXT x8880
f. TXT x8881
f. TXT x8882
f. TXT x8883
f. TXT x8884
f. TXT x8885
f. TXT x8886
f. TXT x8887
f. TXT x8888
f. TXT x8889
f. TXT x8890
f. TXT x8891
f. TXT x8892
f. TXT x8893
f. TXT x8894
f. TXT x8895
$ORIGIN --b.
f. TXT x8897
f. TXT x8898
f. TXT x8899
f. TXT x8900
f. TXT x8901
f. TXT x8902
f. TXT x8903
f. TXT x8904
f. TXT x8905
f. TXT x8906
f. TXT x8907
f. TXT x8908
f. TXT x8909
f. TXT x8910
f. TXT x8911
f. TXT x8912
f. TXT x8913
f. TXT x8914
f. TXT x8915
f. TXT x8916
f. TXT x8917
f. TXT x8918
f. TXT x8919
f. TXT x8920
f. TXT x8921
f. TXT x8922
f. TXT x8923
f. TXT x8924
f. TXT x8925
f. TXT x8926
f. TXT x8927
f. TXT x8928
f. TXT x8929
f. TXT x8930
f. TXT x8931
f. TXT x8932
f. TXT x8933
f. TXT x8934
f. TXT x8935
f. TXT x8936
f. TXT x8937
f. TXT x8938
f. TXT x8939
f. TXT x8940
f. TXT x8941
f. TXT x8942
f. TXT x8943
f. TXT x8944
f. TXT x8945
f. TXT x8946
f. TXT x8947
f. TXT x8948
f. TXT x8949
f. TXT x8950
f. TXT x8951
f. TXT x8952
f. TXT x8953
f. TXT x8954
f. TXT x8955
f. TXT x8956
f. TXT x8957
f. TXT x8958
f. TXT x8959
@ TXT cb0 yzxx y00c
f. TXT x8961
f. TXT x8962
f. TXT x8963
f. TXT x8964
f. TXT x8965
f. TXT x8966
f. TXT x8967
f. TXT x8968
f. TXT x8969
f. TXT x8970
f. TXT x8971
f. TXT x8972
f. TXT x8973
f. TXT x8974
f. TXT x8975
f. TXT x8976
f. TXT x8977
f. TXT x8978
f. TXT x8979
f. TXT x8980
f. TXT x8981
f. TXT x8982
f. TXT x8983
f. TXT x8984
f. TXT x8985
f. TXT x8986
f. TXT x8987
f. TXT x8988
f. TXT x8989
f. TXT x8990
f. TXT x8991
f. TXT x8992
f. TXT x8993
f. TXT x8994
f. TXT x8995
f. TXT x8996
f. TXT x8997
f. TXT x8998
f. TXT x8999
f. TXT x9000
f. TXT x9001
f. TXT x9002
f. TXT x9003
f. TXT x9004
f. TXT x9005
f. TXT x9006
f. TXT x9007
f. TXT x9008
f. TXT x9009
f. TXT x9010
f. TXT x9011
f. TXT x9012
f. TXT x9013
f. TXT x9014
f. TXT x9015
f. TXT x9016
f. TXT x9017
f. TXT x9018
f. TXT x9019
f. TXT x9020
f. TXT x9021
f. TXT x9022
f. TXT x9023
* A -c-z
f. TXT x9025
f. TXT x9026
f. TXT x9027
f. TXT x9028
f. TXT x9029
f. TXT x9030
f. TXT x9031
f. TXT x9032
f. TXT x9033
f. TXT x9034
f. TXT x9035
f. TXT x9036
f. TXT x9037
f. TXT x9038
f. TXT x9039
f. TXT x9040
f. TXT x9041
f. TXT x9042
f. TXT x9043
f. TXT x9044
f. TXT x9045
f. TXT x9046
f. TXT x9047
f. TXT x9048
f. TXT x9049
f. TXT x9050
f. TXT x9051
f. TXT x9052
f. TXT x9053
f. TXT x9054
f. TXT x9055
f. TXT x9056
f. TXT x9057
f. TXT x9058
f. TXT x9059
f. TXT x9060
f. TXT x9061
f. TXT x9062
f. TXT x9063
f. TXT x9064
f. TXT x9065
f. TXT x9066
f. TXT x9067
f. TXT x9068
f. TXT x9069
f. TXT x9070
f. TXT x9071
f. TXT x9072
f. TXT x9073
f. TXT x9074
f. TXT x9075
f. TXT x9076
f. TXT x9077
f. TXT x9078
f. TXT x9079
f. TXT x9080
f. TXT x9081
f. TXT x9082
f. TXT x9083
f. TXT x9084
f. TXT x9085
f. TXT x9086
f. TXT x9087
$ORIGIN -x.
f. TXT x9089
f. TXT x9090
f. TXT x9091
f. TXT x9092
f. TXT x9093
f. TXT x9094
f. TXT x9095
f. TXT x9096
f. TXT x9097
f. TXT x9098
f. TXT x9099
f. TXT x9100
f. TXT x9101
f. TXT x9102
f. TXT x9103
f. TXT x9104
f. TXT x9105
f. TXT x9106
f. TXT x9107
f. TXT x9108
f. TXT x9109
f. TXT x9110
f. TXT x9111
f. TXT x9112
f. TXT x9113
f. TXT x9114
f. TXT x9115
f. TXT x9116
f. TXT x9117
f. TXT x9118
f. TXT x9119
f. TXT x9120
f. TXT x9121
f. TXT x9122
f. TXT x9123
f. TXT x9124
f. TXT x9125
f. TXT x9126
f. TXT x9127
f. TXT x9128
f. TXT x9129
f. TXT x9130
f. TXT x9131
f. TXT x9132
f. TXT x9133
f. TXT x9134
f. TXT x9135
f. TXT x9136
f. TXT x9137
f. TXT x9138
f. TXT x9139
f. TXT x9140
f. TXT x9141
f. TXT x9142
f. TXT x9143
f. TXT x9144
f. TXT x9145
f. TXT x9146
f. TXT x9147
f. TXT x9148
f. TXT x9149
f. TXT x9150
f. TXT x9151
@ A yby yxa
f. TXT x9153
f. TXT x9154
f. TXT x9155
f. TXT x9156
f. TXT x9157
f. TXT x9158
f. TXT x9159
f. TXT x9160
f. TXT x9161
f. TXT x9162
f. TXT x9163
f. TXT x9164
f. TXT x9165
f. TXT x9166
f. TXT x9167
f. TXT x9168
f. TXT x9169
f. TXT x9170
f. TXT x9171
f. TXT x9172
f. TXT x9173
f. TXT x9174
f. TXT x9175
f. TXT x9176
f. TXT x9177
f. TXT x9178
f. TXT x9179
f. TXT x9180
f. TXT x9181
f. TXT x9182
f. TXT x9183
f. TXT x9184
f. TXT x9185
f. TXT x9186
f. TXT x9187
f. TXT x9188
f. TXT x9189
f. TXT x9190
f. TXT x9191
f. TXT x9192
f. TXT x9193
f. TXT x9194
f. TXT x9195
f. TXT x9196
f. TXT x9197
f. TXT x9198
f. TXT x9199
f. TXT x9200
f. TXT x9201
f. TXT x9202
f. TXT x9203
f. TXT x9204
f. TXT x9205
f. TXT x9206
f. TXT x9207
f. TXT x9208
f. TXT x9209
f. TXT x9210
f. TXT x9211
f. TXT x9212
f. TXT x9213
f. TXT x9214
f. TXT x9215
$ORIGIN y.abxy.
f. TXT x9217
f. TXT x9218
f. TXT x9219
f. TXT x9220
f. TXT x9221
f. TXT x9222
f. TXT x9223
f. TXT x9224
f. TXT x9225
f. TXT x9226
f. TXT x9227
f. TXT x9228
f. TXT x9229
f. TXT x9230
f. TXT x9231
f. TXT x9232
f. TXT x9233
f. TXT x9234
f. TXT x9235
f. TXT x9236
f. TXT x9237
f. TXT x9238
f. TXT x9239
f. TXT x9240
f. TXT x9241
f. TXT x9242
f. TXT x9243
f. TXT x9244
f. TXT x9245
f. TXT x9246
f. TXT x9247
f. TXT x9248
f. TXT x9249
f. TXT x9250
f. TXT x9251
f. TXT x9252
f. TXT x9253
f. TXT x9254
f. TXT x9255
f. TXT x9256
f. TXT x9257
f. TXT x9258
f. TXT x9259
f. TXT x9260
f. TXT x9261
f. TXT x9262
f. TXT x9263
f. TXT x9264
f. TXT x9265
f. TXT x9266
f. TXT x9267
f. TXT x9268
f. TXT x9269
f. TXT x9270
f. TXT x9271
f. TXT x9272
f. TXT x9273
f. TXT x9274
f. TXT x9275
f. TXT x9276
f. TXT x9277
f. TXT x9278
f. TXT x9279
@ TXT -0*z
f. TXT x9281
f. TXT x9282
f. TXT x9283
f. TXT x9284
f. TXT x9285
f. TXT x9286
f. TXT x9287
f. TXT x9288
f. TXT x9289
f. TXT x9290
f. TXT x9291
f. TXT x9292
f. TXT x9293
f. TXT x9294
f. TXT x9295
f. TXT x9296
f. TXT x9297
f. TXT x9298
f. TXT x9299
f. TXT x9300
f. TXT x9301
f. TXT x9302
f. TXT x9303
f. TXT x9304
f. TXT x9305
f. TXT x9306
f. TXT x9307
f. TXT x9308
f. TXT x9309
f. TXT x9310
f. TXT x9311
f. TXT x9312
f. TXT x9313
f. TXT x9314
f. TXT x9315
f. TXT x9316
f. TXT x9317
f. TXT x9318
f. TXT x9319
f. TXT x9320
f. TXT x9321
f. TXT x9322
f. TXT x9323
f. TXT x9324
f. TXT x9325
f. TXT x9326
f. TXT x9327
f. TXT x9328
f. TXT x9329
f. TXT x9330
f. TXT x9331
f. TXT x9332
f. TXT x9333
f. TXT x9334
f. TXT x9335
f. TXT x9336
f. TXT x9337
f. TXT x9338
f. TXT x9339
f. TXT x9340
f. TXT x9341
f. TXT x9342
f. TXT x9343
@ A aa *y0-
f. TXT x9345
f. TXT x9346
f. TXT x9347
f. TXT x9348
f. TXT x9349
f. TXT x9350
f. TXT x9351
f. TXT x9352
f. TXT x9353
f. TXT x9354
f. TXT x9355
f. TXT x9356
f. TXT x9357
f. TXT x9358
f. TXT x9359
f. TXT x9360
f. TXT x9361
f. TXT x9362
f. TXT x9363
f. TXT x9364
f. TXT x9365
f. TXT x9366
f. TXT x9367
f. TXT x9368
f. TXT x9369
f. TXT x9370
f. TXT x9371
f. TXT x9372
f. TXT x9373
f. TXT x9374
f. TXT x9375
f. TXT x9376
f. TXT x9377
f. TXT x9378
f. TXT x9379
f. TXT x9380
f. TXT x9381
f. TXT x9382
f. TXT x9383
f. TXT x9384
f. TXT x9385
f. TXT x9386
f. TXT x9387
f. TXT x9388
f. TXT x9389
f. TXT x9390
f. TXT x9391
f. TXT x9392
f. TXT x9393
f. TXT x9394
f. TXT x9395
f. TXT x9396
f. TXT x9397
f. TXT x9398
f. TXT x9399
f. TXT x9400
f. TXT x9401
f. TXT x9402
f. TXT x9403
f. TXT x9404
f. TXT x9405
f. TXT x9406
f. TXT x9407

f. TXT x9409
f. TXT x9410
f. TXT x9411
f. TXT x9412
f. TXT x9413
f. TXT x9414
f. TXT x9415
f. TXT x9416
f. TXT x9417
f. TXT x9418
f. TXT x9419
f. TXT x9420
f. TXT x9421
f. TXT x9422
f. TXT x9423
f. TXT x9424
f. TXT x9425
f. TXT x9426
f. TXT x9427
f. TXT x9428
f. TXT x9429
f. TXT x9430
f. TXT x9431
f. TXT x9432
f. TXT x9433
f. TXT x9434
f. TXT x9435
f. TXT x9436
f. TXT x9437
f. TXT x9438
f. TXT x9439
f. TXT x9440
f. TXT x9441
f. TXT x9442
f. TXT x9443
f. TXT x9444
f. TXT x9445
f. TXT x9446
f. TXT x9447
f. TXT x9448
f. TXT x9449
f. TXT x9450
f. TXT x9451
f. TXT x9452
f. TXT x9453
f. TXT x9454
f. TXT x9455
f. TXT x9456
f. TXT x9457
f. TXT x9458
f. TXT x9459
f. TXT x9460
f. TXT x9461
f. TXT x9462
f. TXT x9463
f. TXT x9464
f. TXT x9465
f. TXT x9466
f. TXT x9467
f. TXT x9468
f. TXT x9469
f. TXT x9470
f. TXT x9471
; -x*
f. TXT x9473
f. TXT x9474
f. TXT x9475
f. TXT x9476
f. TXT x9477
f. TXT x9478
f. TXT x9479
f. TXT x9480
f. TXT x9481
f. TXT x9482
f. TXT x9483
f. TXT x9484
f. TXT x9485
f. TXT x9486
f. TXT x9487
f. TXT x9488
f. TXT x9489
f. TXT x9490
f. TXT x9491
f. TXT x9492
f. TXT x9493
f. TXT x9494
f. TXT x9495
f. TXT x9496
f. TXT x9497
f. TXT x9498
f. TXT x9499
f. TXT x9500
f. TXT x9501
f. TXT x9502
f. TXT x9503
f. TXT x9504
f. TXT x9505
f. TXT x9506
f. TXT x9507
f. TXT x9508
f. TXT x9509
f. TXT x9510
f. TXT x9511
f. TXT x9512
f. TXT x9513
f. TXT x9514
f. TXT x9515
f. TXT x9516
f. TXT x9517
f. TXT x9518
f. TXT x9519
f. TXT x9520
f. TXT x9521
f. TXT x9522
f. TXT x9523
f. TXT x9524
f. TXT x9525
f. TXT x9526
f. TXT x9527
f. TXT x9528
f. TXT x9529
f. TXT x9530
f. TXT x9531
f. TXT x9532
f. TXT x9533
f. TXT x9534
f. TXT x9535
 A -*x- bc *cy
f. TXT x9537
f. TXT x9538
f. TXT x9539
f. TXT x9540
f. TXT x9541
f. TXT x9542
f. TXT x9543
f. TXT x9544
f. TXT x9545
f. TXT x9546
f. TXT x9547
f. TXT x9548
f. TXT x9549
f. TXT x9550
f. TXT x9551
f. TXT x9552
f. TXT x9553
f. TXT x9554
f. TXT x9555
f. TXT x9556
f. TXT x9557
f. TXT x9558
f. TXT x9559
f. TXT x9560
f. TXT x9561
f. TXT x9562
f. TXT x9563
f. TXT x9564
f. TXT x9565
f. TXT x9566
f. TXT x9567
f. TXT x9568
f. TXT x9569
f. TXT x9570
f. TXT x9571
f. TXT x9572
f. TXT x9573
f. TXT x9574
f. TXT x9575
f. TXT x9576
f. TXT x9577
f. TXT x9578
f. TXT x9579
f. TXT x9580
f. TXT x9581
f. TXT x9582
f. TXT x9583
f. TXT x9584
f. TXT x9585
f. TXT x9586
f. TXT x9587
f. TXT x9588
f. TXT x9589
f. TXT x9590
f. TXT x9591
f. TXT x9592
f. TXT x9593
f. TXT x9594
f. TXT x9595
f. TXT x9596
f. TXT x9597
f. TXT x9598
f. TXT x9599
 NS 0a * -cz
f. TXT x9601
f. TXT x9602
f. TXT x9603
f. TXT x9604
f. TXT x9605
f. TXT x9606
f. TXT x9607
f. TXT x9608
f. TXT x9609
f. TXT x9610
f. TXT x9611
f. TXT x9612
f. TXT x9613
f. TXT x9614
f. TXT x9615
f. TXT x9616
f. TXT x9617
f. TXT x9618
f. TXT x9619
f. TXT x9620
f. TXT x9621
f. TXT x9622
f. TXT x9623
f. TXT x9624
f. TXT x9625
f. TXT x9626
f. TXT x9627
f. TXT x9628
f. TXT x9629
f. TXT x9630
f. TXT x9631
f. TXT x9632
f. TXT x9633
f. TXT x9634
f. TXT x9635
f. TXT x9636
f. TXT x9637
f. TXT x9638
f. TXT x9639
f. TXT x9640
f. TXT x9641
f. TXT x9642
f. TXT x9643
f. TXT x9644
f. TXT x9645
f. TXT x9646
f. TXT x9647
f. TXT x9648
f. TXT x9649
f. TXT x9650
f. TXT x9651
f. TXT x9652
f. TXT x9653
f. TXT x9654
f. TXT x9655
f. TXT x9656
f. TXT x9657
f. TXT x9658
f. TXT x9659
f. TXT x9660
f. TXT x9661
f. TXT x9662
f. TXT x9663
; z
f. TXT x9665
f. TXT x9666
f. TXT x9667
f. TXT x9668
f. TXT x9669
f. TXT x9670
f. TXT x9671
f. TXT x9672
f. TXT x9673
f. TXT x9674
f. TXT x9675
f. TXT x9676
f. TXT x9677
f. TXT x9678
f. TXT x9679
f. TXT x9680
f. TXT x9681
f. TXT x9682
f. TXT x9683
f. TXT x9684
f. TXT x9685
f. TXT x9686
f. TXT x9687
f. TXT x9688
f. TXT x9689
f. TXT x9690
f. TXT x9691
f. TXT x9692
f. TXT x9693
f. TXT x9694
f. TXT x9695
f. TXT x9696
f. TXT x9697
f. TXT x9698
f. TXT x9699
f. TXT x9700
f. TXT x9701
f. TXT x9702
f. TXT x9703
f. TXT x9704
f. TXT x9705
f. TXT x9706
f. TXT x9707
f. TXT x9708
f. TXT x9709
f. TXT x9710
f. TXT x9711
f. TXT x9712
f. TXT x9713
f. TXT x9714
f. TXT x9715
f. TXT x9716
f. TXT x9717
f. TXT x9718
f. TXT x9719
f. TXT x9720
f. TXT x9721
f. TXT x9722
f. TXT x9723
f. TXT x9724
f. TXT x9725
f. TXT x9726
f. TXT x9727
@ NS 0x*
f. TXT x9729
f. TXT x9730
f. TXT x9731
f. TXT x9732
f. TXT x9733
f. TXT x9734
f. TXT x9735
f. TXT x9736
f. TXT x9737
f. TXT x9738
f. TXT x9739
f. TXT x9740
f. TXT x9741
f. TXT x9742
f. TXT x9743
f. TXT x9744
f. TXT x9745
f. TXT x9746
f. TXT x9747
f. TXT x9748
f. TXT x9749
f. TXT x9750
f. TXT x9751
f. TXT x9752
f. TXT x9753
f. TXT x9754
f. TXT x9755
f. TXT x9756
f. TXT x9757
f. TXT x9758
f. TXT x9759
f. TXT x9760
f. TXT x9761
f. TXT x9762
f. TXT x9763
f. TXT x9764
f. TXT x9765
f. TXT x9766
f. TXT x9767
f. TXT x9768
f. TXT x9769
f. TXT x9770
f. TXT x9771
f. TXT x9772
f. TXT x9773
f. TXT x9774
f. TXT x9775
f. TXT x9776
f. TXT x9777
f. TXT x9778
f. TXT x9779
f. TXT x9780
f. TXT x9781
f. TXT x9782
f. TXT x9783
f. TXT x9784
f. TXT x9785
f. TXT x9786
f. TXT x9787
f. TXT x9788
f. TXT x9789
f. TXT x9790
f. TXT x9791
0xa A 0 0 cy
f. TXT x9793
f. TXT x9794
f. TXT x9795
f. TXT x9796
f. TXT x9797
f. TXT x9798
f. TXT x9799
f. TXT x9800
f. TXT x9801
f. TXT x9802
f. TXT x9803
f. TXT x9804
f. TXT x9805
f. TXT x9806
f. TXT x9807
f. TXT x9808
f. TXT x9809
f. TXT x9810
f. TXT x9811
f. TXT x9812
f. TXT x9813
f. TXT x9814
f. TXT x9815
f. TXT x9816
f. TXT x9817
f. TXT x9818
f. TXT x9819
f. TXT x9820
f. TXT x9821
f. TXT x9822
f. TXT x9823
f. TXT x9824
f. TXT x9825
f. TXT x9826
f. TXT x9827
f. TXT x9828
f. TXT x9829
f. TXT x9830
f. TXT x9831
f. TXT x9832
f. TXT x9833
f. TXT x9834
f. TXT x9835
f. TXT x9836
f. TXT x9837
f. TXT x9838
f. TXT x9839
f. TXT x9840
f. TXT x9841
f. TXT x9842
f. TXT x9843
f. TXT x9844
f. TXT x9845
f. TXT x9846
f. TXT x9847
f. TXT x9848
f. TXT x9849
f. TXT x9850
f. TXT x9851
f. TXT x9852
f. TXT x9853
f. TXT x9854
f. TXT x9855
@ TXT *cxa c0z
f. TXT x9857
f. TXT x9858
f. TXT x9859
f. TXT x9860
f. TXT x9861
f. TXT x9862
f. TXT x9863
f. TXT x9864
f. TXT x9865
f. TXT x9866
f. TXT x9867
f. TXT x9868
f. TXT x9869
f. TXT x9870
f. TXT x9871
f. TXT x9872
f. TXT x9873
f. TXT x9874
f. TXT x9875
f. TXT x9876
f. TXT x9877
f. TXT x9878
f. TXT x9879
f. TXT x9880
f. TXT x9881
f. TXT x9882
f. TXT x9883
f. TXT x9884
f. TXT x9885
f. TXT x9886
f. TXT x9887
f. TXT x9888
f. TXT x9889
f. TXT x9890
f. TXT x9891
f. TXT x9892
f. TXT x9893
f. TXT x9894
f. TXT x9895
f. TXT x9896
f. TXT x9897
f. TXT x9898
f. TXT x9899
f. TXT x9900
f. TXT x9901
f. TXT x9902
f. TXT x9903
f. TXT x9904
f. TXT x9905
f. TXT x9906
f. TXT x9907
f. TXT x9908
f. TXT x9909
f. TXT x9910
f. TXT x9911
f. TXT x9912
f. TXT x9913
f. TXT x9914
f. TXT x9915
f. TXT x9916
f. TXT x9917
f. TXT x9918
f. TXT x9919
@ A cz*x 0a az
f. TXT x9921
f. TXT x9922
f. TXT x9923
f. TXT x9924
f. TXT x9925
f. TXT x9926
f. TXT x9927
f. TXT x9928
f. TXT x9929
f. TXT x9930
f. TXT x9931
f. TXT x9932
f. TXT x9933
f. TXT x9934
f. TXT x9935
f. TXT x9936
f. TXT x9937
f. TXT x9938
f. TXT x9939
f. TXT x9940
f. TXT x9941
f. TXT x9942
f. TXT x9943
f. TXT x9944
f. TXT x9945
f. TXT x9946
f. TXT x9947
f. TXT x9948
f. TXT x9949
f. TXT x9950
f. TXT x9951
f. TXT x9952
f. TXT x9953
f. TXT x9954
f. TXT x9955
f. TXT x9956
f. TXT x9957
f. TXT x9958
f. TXT x9959
f. TXT x9960
f. TXT x9961
f. TXT x9962
f. TXT x9963
f. TXT x9964
f. TXT x9965
f. TXT x9966
f. TXT x9967
f. TXT x9968
f. TXT x9969
f. TXT x9970
f. TXT x9971
f. TXT x9972
f. TXT x9973
f. TXT x9974
f. TXT x9975
f. TXT x9976
f. TXT x9977
f. TXT x9978
f. TXT x9979
f. TXT x9980
f. TXT x9981
f. TXT x9982
f. TXT x9983
$TTL 198
f. TXT x9985
f. TXT x9986
f. TXT x9987
f. TXT x9988
f. TXT x9989
f. TXT x9990
f. TXT x9991
f. TXT x9992
f. TXT x9993
f. TXT x9994
f. TXT x9995
f. TXT x9996
f. TXT x9997
f. TXT x9998
f. TXT x9999
f. TXT x10000
f. TXT x10001
f. TXT x10002
f. TXT x10003
f. TXT x10004
f. TXT x10005
f. TXT x10006
f. TXT x10007
f. TXT x10008
f. TXT x10009
f. TXT x10010
f. TXT x10011
f. TXT x10012
f. TXT x10013
f. TXT x10014
f. TXT x10015
f. TXT x10016
f. TXT x10017
f. TXT x10018
f. TXT x10019
f. TXT x10020
f. TXT x10021
f. TXT x10022
f. TXT x10023
f. TXT x10024
f. TXT x10025
f. TXT x10026
f. TXT x10027
f. TXT x10028
f. TXT x10029
f. TXT x10030
f. TXT x10031
f. TXT x10032
f. TXT x10033
f. TXT x10034
f. TXT x10035
f. TXT x10036
f. TXT x10037
f. TXT x10038
f. TXT x10039
f. TXT x10040
f. TXT x10041
f. TXT x10042
f. TXT x10043
f. TXT x10044
f. TXT x10045
f. TXT x10046
f. TXT x10047
 NS b y0*- cb
f. TXT x10049
f. TXT x10050
f. TXT x10051
f. TXT x10052
f. TXT x10053
f. TXT x10054
f. TXT x10055
f. TXT x10056
f. TXT x10057
f. TXT x10058
f. TXT x10059
f. TXT x10060
f. TXT x10061
f. TXT x10062
f. TXT x10063
f. TXT x10064
f. TXT x10065
f. TXT x10066
f. TXT x10067
f. TXT x10068
f. TXT x10069
f. TXT x10070
f. TXT x10071
f. TXT x10072
f. TXT x10073
f. TXT x10074
f. TXT x10075
f. TXT x10076
f. TXT x10077
f. TXT x10078
f. TXT x10079
f. TXT x10080
f. TXT x10081
f. TXT x10082
f. TXT x10083
f. TXT x10084
f. TXT x10085
f. TXT x10086
f. TXT x10087
f. TXT x10088
f. TXT x10089
f. TXT x10090
f. TXT x10091
f. TXT x10092
f. TXT x10093
f. TXT x10094
f. TXT x10095
f. TXT x10096
f. TXT x10097
f. TXT x10098
f. TXT x10099
f. TXT x10100
f. TXT x10101
f. TXT x10102
f. TXT x10103
f. TXT x10104
f. TXT x10105
f. TXT x10106
f. TXT x10107
f. TXT x10108
f. TXT x10109
f. TXT x10110
f. TXT x10111
zx TXT xxb-
f. TXT x10113
f. TXT x10114
f. TXT x10115
f. TXT x10116
f. TXT x10117
f. TXT x10118
f. TXT x10119
f. TXT x10120
f. TXT x10121
f. TXT x10122
f. TXT x10123
f. TXT x10124
f. TXT x10125
f. TXT x10126
f. TXT x10127
f. TXT x10128
f. TXT x10129
f. TXT x10130
f. TXT x10131
f. TXT x10132
f. TXT x10133
f. TXT x10134
f. TXT x10135
f. TXT x10136
f. TXT x10137
f. TXT x10138
f. TXT x10139
f. TXT x10140
f. TXT x10141
f. TXT x10142
f. TXT x10143
f. TXT x10144
f. TXT x10145
f. TXT x10146
f. TXT x10147
f. TXT x10148
f. TXT x10149
f. TXT x10150
f. TXT x10151
f. TXT x10152
f. TXT x10153
f. TXT x10154
f. TXT x10155
f. TXT x10156
f. TXT x10157
f. TXT x10158
f. TXT x10159
f. TXT x10160
f. TXT x10161
f. TXT x10162
f. TXT x10163
f. TXT x10164
f. TXT x10165
f. TXT x10166
f. TXT x10167
f. TXT x10168
f. TXT x10169
f. TXT x10170
f. TXT x10171
f. TXT x10172
f. TXT x10173
f. TXT x10174
f. TXT x10175
ccz-.xb. TXT -zbz c0a bc
f. TXT x10177
f. TXT x10178
f. TXT x10179
f. TXT x10180
f. TXT x10181
f. TXT x10182
f. TXT x10183
f. TXT x10184
f. TXT x10185
f. TXT x10186
f. TXT x10187
f. TXT x10188
f. TXT x10189
f. TXT x10190
f. TXT x10191
f. TXT x10192
f. TXT x10193
f. TXT x10194
f. TXT x10195
f. TXT x10196
f. TXT x10197
f. TXT x10198
f. TXT x10199
f. TXT x10200
f. TXT x10201
f. TXT x10202
f. TXT x10203
f. TXT x10204
f. TXT x10205
f. TXT x10206
f. TXT x10207
f. TXT x10208
f. TXT x10209
f. TXT x10210
f. TXT x10211
f. TXT x10212
f. TXT x10213
f. TXT x10214
f. TXT x10215
f. TXT x10216
f. TXT x10217
f. TXT x10218
f. TXT x10219
f. TXT x10220
f. TXT x10221
f. TXT x10222
f. TXT x10223
f. TXT x10224
f. TXT x10225
f. TXT x10226
f. TXT x10227
f. TXT x10228
f. TXT x10229
f. TXT x10230
f. TXT x10231
f. TXT x10232
f. TXT x10233
f. TXT x10234
f. TXT x10235
f. TXT x10236
f. TXT x10237
f. TXT x10238
f. TXT x10239
x TXT y-a- x*x x
f. TXT x10241
f. TXT x10242
f. TXT x10243
f. TXT x10244
f. TXT x10245
f. TXT x10246
f. TXT x10247
f. TXT x10248
f. TXT x10249
f. TXT x10250
f. TXT x10251
f. TXT x10252
f. TXT x10253
f. TXT x10254
f. TXT x10255
f. TXT x10256
f. TXT x10257
f. TXT x10258
f. TXT x10259
f. TXT x10260
f. TXT x10261
f. TXT x10262
f. TXT x10263
f. TXT x10264
f. TXT x10265
f. TXT x10266
f. TXT x10267
f. TXT x10268
f. TXT x10269
f. TXT x10270
f. TXT x10271
f. TXT x10272
f. TXT x10273
f. TXT x10274
f. TXT x10275
f. TXT x10276
f. TXT x10277
f. TXT x10278
f. TXT x10279
f. TXT x10280
f. TXT x10281
f. TXT x10282
f. TXT x10283
f. TXT x10284
f. TXT x10285
f. TXT x10286
f. TXT x10287
f. TXT x10288
f. TXT x10289
f. TXT x10290
f. TXT x10291
f. TXT x10292
f. TXT x10293
f. TXT x10294
f. TXT x10295
f. TXT x10296
f. TXT x10297
f. TXT x10298
f. TXT x10299
f. TXT x10300
f. TXT x10301
f. TXT x10302
f. TXT x10303
; -z
f. TXT x10305
f. TXT x10306
f. TXT x10307
f. TXT x10308
f. TXT x10309
f. TXT x10310
f. TXT x10311
f. TXT x10312
f. TXT x10313
f. TXT x10314
f. TXT x10315
f. TXT x10316
f. TXT x10317
f. TXT x10318
f. TXT x10319
f. TXT x10320
f. TXT x10321
f. TXT x10322
f. TXT x10323
f. TXT x10324
f. TXT x10325
f. TXT x10326
f. TXT x10327
f. TXT x10328
f. TXT x10329
f. TXT x10330
f. TXT x10331
f. TXT x10332
f. TXT x10333
f. TXT x10334
f. TXT x10335
f. TXT x10336
f. TXT x10337
f. TXT x10338
f. TXT x10339
f. TXT x10340
f. TXT x10341
f. TXT x10342
f. TXT x10343
f. TXT x10344
f. TXT x10345
f. TXT x10346
f. TXT x10347
f. TXT x10348
f. TXT x10349
f. TXT x10350
f. TXT x10351
f. TXT x10352
f. TXT x10353
f. TXT x10354
f. TXT x10355
f. TXT x10356
f. TXT x10357
f. TXT x10358
f. TXT x10359
f. TXT x10360
f. TXT x10361
f. TXT x10362
f. TXT x10363
f. TXT x10364
f. TXT x10365
f. TXT x10366
f. TXT x10367
**x0 A x
f. TXT x10369
f. TXT x10370
f. TXT x10371
f. TXT x10372
f. TXT x10373
f. TXT x10374
f. TXT x10375
f. TXT x10376
f. TXT x10377
f. TXT x10378
f. TXT x10379
f. TXT x10380
f. TXT x10381
f. TXT x10382
f. TXT x10383
f. TXT x10384
f. TXT x10385
f. TXT x10386
f. TXT x10387
f. TXT x10388
f. TXT x10389
f. TXT x10390
f. TXT x10391
f. TXT x10392
f. TXT x10393
f. TXT x10394
f. TXT x10395
f. TXT x10396
f. TXT x10397
f. TXT x10398
f. TXT x10399
f. TXT x10400
f. TXT x10401
f. TXT x10402
f. TXT x10403
f. TXT x10404
f. TXT x10405
f. TXT x10406
f. TXT x10407
f. TXT x10408
f. TXT x10409
f. TXT x10410
f. TXT x10411
f. TXT x10412
f. TXT x10413
f. TXT x10414
f. TXT x10415
f. TXT x10416
f. TXT x10417
f. TXT x10418
f. TXT x10419
f. TXT x10420
f. TXT x10421
f. TXT x10422
f. TXT x10423
f. TXT x10424
f. TXT x10425
f. TXT x10426
f. TXT x10427
f. TXT x10428
f. TXT x10429
f. TXT x10430
f. TXT x10431
x.zc0. A * c0* y*zz
f. TXT x10433
f. TXT x10434
f. TXT x10435
f. TXT x10436
f. TXT x10437
f. TXT x10438
f. TXT x10439
f. TXT x10440
f. TXT x10441
f. TXT x10442
f. TXT x10443
f. TXT x10444
f. TXT x10445
f. TXT x10446
f. TXT x10447
f. TXT x10448
f. TXT x10449
f. TXT x10450
f. TXT x10451
f. TXT x10452
f. TXT x10453
f. TXT x10454
f. TXT x10455
f. TXT x10456
f. TXT x10457
f. TXT x10458
f. TXT x10459
f. TXT x10460
f. TXT x10461
f. TXT x10462
f. TXT x10463
f. TXT x10464
f. TXT x10465
f. TXT x10466
f. TXT x10467
f. TXT x10468
f. TXT x10469
f. TXT x10470
f. TXT x10471
f. TXT x10472
f. TXT x10473
f. TXT x10474
f. TXT x10475
f. TXT x10476
f. TXT x10477
f. TXT x10478
f. TXT x10479
f. TXT x10480
f. TXT x10481
f. TXT x10482
f. TXT x10483
f. TXT x10484
f. TXT x10485
f. TXT x10486
f. TXT x10487
f. TXT x10488
f. TXT x10489
f. TXT x10490
f. TXT x10491
f. TXT x10492
f. TXT x10493
f. TXT x10494
f. TXT x10495
@ A a x 00xx
f. TXT x10497
f. TXT x10498
f. TXT x10499
f. TXT x10500
f. TXT x10501
f. TXT x10502
f. TXT x10503
f. TXT x10504
f. TXT x10505
f. TXT x10506
f. TXT x10507
f. TXT x10508
f. TXT x10509
f. TXT x10510
f. TXT x10511
f. TXT x10512
f. TXT x10513
f. TXT x10514
f. TXT x10515
f. TXT x10516
f. TXT x10517
f. TXT x10518
f. TXT x10519
f. TXT x10520
f. TXT x10521
f. TXT x10522
f. TXT x10523
f. TXT x10524
f. TXT x10525
f. TXT x10526
f. TXT x10527
f. TXT x10528
f. TXT x10529
f. TXT x10530
f. TXT x10531
f. TXT x10532
f. TXT x10533
f. TXT x10534
f. TXT x10535
f. TXT x10536
f. TXT x10537
f. TXT x10538
f. TXT x10539
f. TXT x10540
f. TXT x10541
f. TXT x10542
f. TXT x10543
f. TXT x10544
f. TXT x10545
f. TXT x10546
f. TXT x10547
f. TXT x10548
f. TXT x10549
f. TXT x10550
f. TXT x10551
f. TXT x10552
f. TXT x10553
f. TXT x10554
f. TXT x10555
f. TXT x10556
f. TXT x10557
f. TXT x10558
f. TXT x10559
$TTL 3576202
f. TXT x10561
f. TXT x10562
f. TXT x10563
f. TXT x10564
f. TXT x10565
f. TXT x10566
f. TXT x10567
f. TXT x10568
f. TXT x10569
f. TXT x10570
f. TXT x10571
f. TXT x10572
f. TXT x10573
f. TXT x10574
f. TXT x10575
f. TXT x10576
f. TXT x10577
f. TXT x10578
f. TXT x10579
f. TXT x10580
f. TXT x10581
f. TXT x10582
f. TXT x10583
f. TXT x10584
f. TXT x10585
f. TXT x10586
f. TXT x10587
f. TXT x10588
f. TXT x10589
f. TXT x10590
f. TXT x10591
f. TXT x10592
f. TXT x10593
f. TXT x10594
f. TXT x10595
f. TXT x10596
f. TXT x10597
f. TXT x10598
f. TXT x10599
f. TXT x10600
f. TXT x10601
f. TXT x10602
f. TXT x10603
f. TXT x10604
f. TXT x10605
f. TXT x10606
f. TXT x10607
f. TXT x10608
f. TXT x10609
f. TXT x10610
f. TXT x10611
f. TXT x10612
f. TXT x10613
f. TXT x10614
f. TXT x10615
f. TXT x10616
f. TXT x10617
f. TXT x10618
f. TXT x10619
f. TXT x10620
f. TXT x10621
f. TXT x10622
f. TXT x10623
 A **c
f. TXT x10625
f. TXT x10626
f. TXT x10627
f. TXT x10628
f. TXT x10629
f. TXT x10630
f. TXT x10631
f. TXT x10632
f. TXT x10633
f. TXT x10634
f. TXT x10635
f. TXT x10636
f. TXT x10637
f. TXT x10638
f. TXT x10639
f. TXT x10640
f. TXT x10641
f. TXT x10642
f. TXT x10643
f. TXT x10644
f. TXT x10645
f. TXT x10646
f. TXT x10647
f. TXT x10648
f. TXT x10649
f. TXT x10650
f. TXT x10651
f. TXT x10652
f. TXT x10653
f. TXT x10654
f. TXT x10655
f. TXT x10656
f. TXT x10657
f. TXT x10658
f. TXT x10659
f. TXT x10660
f. TXT x10661
f. TXT x10662
f. TXT x10663
f. TXT x10664
f. TXT x10665
f. TXT x10666
f. TXT x10667
f. TXT x10668
f. TXT x10669
f. TXT x10670
f. TXT x10671
f. TXT x10672
f. TXT x10673
f. TXT x10674
f. TXT x10675
f. TXT x10676
f. TXT x10677
f. TXT x10678
f. TXT x10679
f. TXT x10680
f. TXT x10681
f. TXT x10682
f. TXT x10683
f. TXT x10684
f. TXT x10685
f. TXT x10686
f. TXT x10687
y-.a. A zy ycx-
f. TXT x10689
f. TXT x10690
f. TXT x10691
f. TXT x10692
f. TXT x10693
f. TXT x10694
f. TXT x10695
f. TXT x10696
f. TXT x10697
f. TXT x10698
f. TXT x10699
f. TXT x10700
f. TXT x10701
f. TXT x10702
f. TXT x10703
f. TXT x10704
f. TXT x10705
f. TXT x10706
f. TXT x10707
f. TXT x10708
f. TXT x10709
f. TXT x10710
f. TXT x10711
f. TXT x10712
f. TXT x10713
f. TXT x10714
f. TXT x10715
f. TXT x10716
f. TXT x10717
f. TXT x10718
f. TXT x10719
f. TXT x10720
f. TXT x10721
f. TXT x10722
f. TXT x10723
f. TXT x10724
f. TXT x10725
f. TXT x10726
f. TXT x10727
f. TXT x10728
f. TXT x10729
f. TXT x10730
f. TXT x10731
f. TXT x10732
f. TXT x10733
f. TXT x10734
f. TXT x10735
f. TXT x10736
f. TXT x10737
f. TXT x10738
f. TXT x10739
f. TXT x10740
f. TXT x10741
f. TXT x10742
f. TXT x10743
f. TXT x10744
f. TXT x10745
f. TXT x10746
f. TXT x10747
f. TXT x10748
f. TXT x10749
f. TXT x10750
f. TXT x10751

f. TXT x10753
f. TXT x10754
f. TXT x10755
f. TXT x10756
f. TXT x10757
f. TXT x10758
f. TXT x10759
f. TXT x10760
f. TXT x10761
f. TXT x10762
f. TXT x10763
f. TXT x10764
f. TXT x10765
f. TXT x10766
f. TXT x10767
f. TXT x10768
f. TXT x10769
f. TXT x10770
f. TXT x10771
f. TXT x10772
f. TXT x10773
f. TXT x10774
f. TXT x10775
f. TXT x10776
f. TXT x10777
f. TXT x10778
f. TXT x10779
f. TXT x10780
f. TXT x10781
f. TXT x10782
f. TXT x10783
f. TXT x10784
f. TXT x10785
f. TXT x10786
f. TXT x10787
f. TXT x10788
f. TXT x10789
f. TXT x10790
f. TXT x10791
f. TXT x10792
f. TXT x10793
f. TXT x10794
f. TXT x10795
f. TXT x10796
f. TXT x10797
f. TXT x10798
f. TXT x10799
f. TXT x10800
f. TXT x10801
f. TXT x10802
f. TXT x10803
f. TXT x10804
f. TXT x10805
f. TXT x10806
f. TXT x10807
f. TXT x10808
f. TXT x10809
f. TXT x10810
f. TXT x10811
f. TXT x10812
f. TXT x10813
f. TXT x10814
f. TXT x10815
$TTL 29469
f. TXT x10817
f. TXT x10818
f. TXT x10819
f. TXT x10820
f. TXT x10821
f. TXT x10822
f. TXT x10823
f. TXT x10824
f. TXT x10825
f. TXT x10826
f. TXT x10827
f. TXT x10828
f. TXT x10829
f. TXT x10830
f. TXT x10831
f. TXT x10832
f. TXT x10833
f. TXT x10834
f. TXT x10835
f. TXT x10836
f. TXT x10837
f. TXT x10838
f. TXT x10839
f. TXT x10840
f. TXT x10841
f. TXT x10842
f. TXT x10843
f. TXT x10844
f. TXT x10845
f. TXT x10846
f. TXT x10847
f. TXT x10848
f. TXT x10849
f. TXT x10850
f. TXT x10851
f. TXT x10852
f. TXT x10853
f. TXT x10854
f. TXT x10855
f. TXT x10856
f. TXT x10857
f. TXT x10858
f. TXT x10859
f. TXT x10860
f. TXT x10861
f. TXT x10862
f. TXT x10863
f. TXT x10864
f. TXT x10865
f. TXT x10866
f. TXT x10867
f. TXT x10868
f. TXT x10869
f. TXT x10870
f. TXT x10871
f. TXT x10872
f. TXT x10873
f. TXT x10874
f. TXT x10875
f. TXT x10876
f. TXT x10877
f. TXT x10878
f. TXT x10879
@ TXT *x
f. TXT x10881
f. TXT x10882
f. TXT x10883
f. TXT x10884
f. TXT x10885
f. TXT x10886
f. TXT x10887
f. TXT x10888
f. TXT x10889
f. TXT x10890
f. TXT x10891
f. TXT x10892
f. TXT x10893
f. TXT x10894
f. TXT x10895
f. TXT x10896
f. TXT x10897
f. TXT x10898
f. TXT x10899
f. TXT x10900
f. TXT x10901
f. TXT x10902
f. TXT x10903
f. TXT x10904
f. TXT x10905
f. TXT x10906
f. TXT x10907
f. TXT x10908
f. TXT x10909
f. TXT x10910
f. TXT x10911
f. TXT x10912
f. TXT x10913
f. TXT x10914
f. TXT x10915
f. TXT x10916
f. TXT x10917
f. TXT x10918
f. TXT x10919
f. TXT x10920
f. TXT x10921
f. TXT x10922
f. TXT x10923
f. TXT x10924
f. TXT x10925
f. TXT x10926
f. TXT x10927
f. TXT x10928
f. TXT x10929
f. TXT x10930
f. TXT x10931
f. TXT x10932
f. TXT x10933
f. TXT x10934
f. TXT x10935
f. TXT x10936
f. TXT x10937
f. TXT x10938
f. TXT x10939
f. TXT x10940
f. TXT x10941
f. TXT x10942
f. TXT x10943
ca0 A *bb*
f. TXT x10945
f. TXT x10946
f. TXT x10947
f. TXT x10948
f. TXT x10949
f. TXT x10950
f. TXT x10951
f. TXT x10952
f. TXT x10953
f. TXT x10954
f. TXT x10955
f. TXT x10956
f. TXT x10957
f. TXT x10958
f. TXT x10959
f. TXT x10960
f. TXT x10961
f. TXT x10962
f. TXT x10963
f. TXT x10964
f. TXT x10965
f. TXT x10966
f. TXT x10967
f. TXT x10968
f. TXT x10969
f. TXT x10970
f. TXT x10971
f. TXT x10972
f. TXT x10973
f. TXT x10974
f. TXT x10975
f. TXT x10976
f. TXT x10977
f. TXT x10978
f. TXT x10979
f. TXT x10980
f. TXT x10981
f. TXT x10982
f. TXT x10983
f. TXT x10984
f. TXT x10985
f. TXT x10986
f. TXT x10987
f. TXT x10988
f. TXT x10989
f. TXT x10990
f. TXT x10991
f. TXT x10992
f. TXT x10993
f. TXT x10994
f. TXT x10995
f. TXT x10996
f. TXT x10997
f. TXT x10998
f. TXT x10999
f. TXT x11000
f. TXT x11001
f. TXT x11002
f. TXT x11003
f. TXT x11004
f. TXT x11005
f. TXT x11006
f. TXT x11007
0b. NS zbc-
f. TXT x11009
f. TXT x11010
f. TXT x11011
f. TXT x11012
f. TXT x11013
f. TXT x11014
f. TXT x11015
f. TXT x11016
f. TXT x11017
f. TXT x11018
f. TXT x11019
f. TXT x11020
f. TXT x11021
f. TXT x11022
f. TXT x11023
f. TXT x11024
f. TXT x11025
f. TXT x11026
f. TXT x11027
f. TXT x11028
f. TXT x11029
f. TXT x11030
f. TXT x11031
f. TXT x11032
f. TXT x11033
f. TXT x11034
f. TXT x11035
f. TXT x11036
f. TXT x11037
f. TXT x11038
f. TXT x11039
f. TXT x11040
f. TXT x11041
f. TXT x11042
f. TXT x11043
f. TXT x11044
f. TXT x11045
f. TXT x11046
f. TXT x11047
f. TXT x11048
f. TXT x11049
f. TXT x11050
f. TXT x11051
f. TXT x11052
f. TXT x11053
f. TXT x11054
f. TXT x11055
f. TXT x11056
f. TXT x11057
f. TXT x11058
f. TXT x11059
f. TXT x11060
f. TXT x11061
f. TXT x11062
f. TXT x11063
f. TXT x11064
f. TXT x11065
f. TXT x11066
f. TXT x11067
f. TXT x11068
f. TXT x11069
f. TXT x11070
f. TXT x11071
a- A *cxz 0-*0 *c
f. TXT x11073
f. TXT x11074
f. TXT x11075
f. TXT x11076
f. TXT x11077
f. TXT x11078
f. TXT x11079
f. TXT x11080
f. TXT x11081
f. TXT x11082
f. TXT x11083
f. TXT x11084
f. TXT x11085
f. TXT x11086
f. TXT x11087
f. TXT x11088
f. TXT x11089
f. TXT x11090
f. TXT x11091
f. TXT x11092
f. TXT x11093
f. TXT x11094
f. TXT x11095
f. TXT x11096
f. TXT x11097
f. TXT x11098
f. TXT x11099
f. TXT x11100
f. TXT x11101
f. TXT x11102
f. TXT x11103
f. TXT x11104
f. TXT x11105
f. TXT x11106
f. TXT x11107
f. TXT x11108
f. TXT x11109
f. TXT x11110
f. TXT x11111
f. TXT x11112
f. TXT x11113
f. TXT x11114
f. TXT x11115
f. TXT x11116
f. TXT x11117
f. TXT x11118
f. TXT x11119
f. TXT x11120
f. TXT x11121
f. TXT x11122
f. TXT x11123
f. TXT x11124
f. TXT x11125
f. TXT x11126
f. TXT x11127
f. TXT x11128
f. TXT x11129
f. TXT x11130
f. TXT x11131
f. TXT x11132
f. TXT x11133
f. TXT x11134
f. TXT x11135
$TTL 2147483648
f. TXT x11137
f. TXT x11138
f. TXT x11139
f. TXT x11140
f. TXT x11141
f. TXT x11142
f. TXT x11143
f. TXT x11144
f. TXT x11145
f. TXT x11146
f. TXT x11147
f. TXT x11148
f. TXT x11149
f. TXT x11150
f. TXT x11151
f. TXT x11152
f. TXT x11153
f. TXT x11154
f. TXT x11155
f. TXT x11156
f. TXT x11157
f. TXT x11158
f. TXT x11159
f. TXT x11160
f. TXT x11161
f. TXT x11162
f. TXT x11163
f. TXT x11164
f. TXT x11165
f. TXT x11166
f. TXT x11167
f. TXT x11168
f. TXT x11169
f. TXT x11170
f. TXT x11171
f. TXT x11172
f. TXT x11173
f. TXT x11174
f. TXT x11175
f. TXT x11176
f. TXT x11177
f. TXT x11178
f. TXT x11179
f. TXT x11180
f. TXT x11181
f. TXT x11182
f. TXT x11183
f. TXT x11184
f. TXT x11185
f. TXT x11186
f. TXT x11187
f. TXT x11188
f. TXT x11189
f. TXT x11190
f. TXT x11191
f. TXT x11192
f. TXT x11193
f. TXT x11194
f. TXT x11195
f. TXT x11196
f. TXT x11197
f. TXT x11198
f. TXT x11199
cc TXT ca* z
f. TXT x11201
f. TXT x11202
f. TXT x11203
f. TXT x11204
f. TXT x11205
f. TXT x11206
f. TXT x11207
f. TXT x11208
f. TXT x11209
f. TXT x11210
f. TXT x11211
f. TXT x11212
f. TXT x11213
f. TXT x11214
f. TXT x11215
f. TXT x11216
f. TXT x11217
f. TXT x11218
f. TXT x11219
f. TXT x11220
f. TXT x11221
f. TXT x11222
f. TXT x11223
f. TXT x11224
f. TXT x11225
f. TXT x11226
f. TXT x11227
f. TXT x11228
f. TXT x11229
f. TXT x11230
f. TXT x11231
f. TXT x11232
f. TXT x11233
f. TXT x11234
f. TXT x11235
f. TXT x11236
f. TXT x11237
f. TXT x11238
f. TXT x11239
f. TXT x11240
f. TXT x11241
f. TXT x11242
f. TXT x11243
f. TXT x11244
f. TXT x11245
f. TXT x11246
f. TXT x11247
f. TXT x11248
f. TXT x11249
f. TXT x11250
f. TXT x11251
f. TXT x11252
f. TXT x11253
f. TXT x11254
f. TXT x11255
f. TXT x11256
f. TXT x11257
f. TXT x11258
f. TXT x11259
f. TXT x11260
f. TXT x11261
f. TXT x11262
f. TXT x11263
@ NS b
f. TXT x11265
f. TXT x11266
f. TXT x11267
f. TXT x11268
f. TXT x11269
f. TXT x11270
f. TXT x11271
f. TXT x11272
f. TXT x11273
f. TXT x11274
f. TXT x11275
f. TXT x11276
f. TXT x11277
f. TXT x11278
f. TXT x11279
f. TXT x11280
f. TXT x11281
f. TXT x11282
f. TXT x11283
f. TXT x11284
f. TXT x11285
f. TXT x11286
f. TXT x11287
f. TXT x11288
f. TXT x11289
f. TXT x11290
f. TXT x11291
f. TXT x11292
f. TXT x11293
f. TXT x11294
f. TXT x11295
f. TXT x11296
f. TXT x11297
f. TXT x11298
f. TXT x11299
f. TXT x11300
f. TXT x11301
f. TXT x11302
f. TXT x11303
f. TXT x11304
f. TXT x11305
f. TXT x11306
f. TXT x11307
f. TXT x11308
f. TXT x11309
f. TXT x11310
f. TXT x11311
f. TXT x11312
f. TXT x11313
f. TXT x11314
f. TXT x11315
f. TXT x11316
f. TXT x11317
f. TXT x11318
f. TXT x11319
f. TXT x11320
f. TXT x11321
f. TXT x11322
f. TXT x11323
f. TXT x11324
f. TXT x11325
f. TXT x11326
f. TXT x11327
@ A a
f. TXT x11329
f. TXT x11330
f. TXT x11331
f. TXT x11332
f. TXT x11333
f. TXT x11334
f. TXT x11335
f. TXT x11336
f. TXT x11337
f. TXT x11338
f. TXT x11339
f. TXT x11340
f. TXT x11341
f. TXT x11342
f. TXT x11343
f. TXT x11344
f. TXT x11345
f. TXT x11346
f. TXT x11347
f. TXT x11348
f. TXT x11349
f. TXT x11350
f. TXT x11351
f. TXT x11352
f. TXT x11353
f. TXT x11354
f. TXT x11355
f. TXT x11356
f. TXT x11357
f. TXT x11358
f. TXT x11359
f. TXT x11360
f. TXT x11361
f. TXT x11362
f. TXT x11363
f. TXT x11364
f. TXT x11365
f. TXT x11366
f. TXT x11367
f. TXT x11368
f. TXT x11369
f. TXT x11370
f. TXT x11371
f. TXT x11372
f. TXT x11373
f. TXT x11374
f. TXT x11375
f. TXT x11376
f. TXT x11377
f. TXT x11378
f. TXT x11379
f. TXT x11380
f. TXT x11381
f. TXT x11382
f. TXT x11383
f. TXT x11384
f. TXT x11385
f. TXT x11386
f. TXT x11387
f. TXT x11388
f. TXT x11389
f. TXT x11390
f. TXT x11391
@ NS yy xc
f. TXT x11393
f. TXT x11394
f. TXT x11395
f. TXT x11396
f. TXT x11397
f. TXT x11398
f. TXT x11399
f. TXT x11400
f. TXT x11401
f. TXT x11402
f. TXT x11403
f. TXT x11404
f. TXT x11405
f. TXT x11406
f. TXT x11407
f. TXT x11408
f. TXT x11409
f. TXT x11410
f. TXT x11411
f. TXT x11412
f. TXT x11413
f. TXT x11414
f. TXT x11415
f. TXT x11416
f. TXT x11417
f. TXT x11418
f. TXT x11419
f. TXT x11420
f. TXT x11421
f. TXT x11422
f. TXT x11423
f. TXT x11424
f. TXT x11425
f. TXT x11426
f. TXT x11427
f. TXT x11428
f. TXT x11429
f. TXT x11430
f. TXT x11431
f. TXT x11432
f. TXT x11433
f. TXT x11434
f. TXT x11435
f. TXT x11436
f. TXT x11437
f. TXT x11438
f. TXT x11439
f. TXT x11440
f. TXT x11441
f. TXT x11442
f. TXT x11443
f. TXT x11444
f. TXT x11445
f. TXT x11446
f. TXT x11447
f. TXT x11448
f. TXT x11449
f. TXT x11450
f. TXT x11451
f. TXT x11452
f. TXT x11453
f. TXT x11454
f. TXT x11455
 A a-xb
f. TXT x11457
f. TXT x11458
f. TXT x11459
f. TXT x11460
f. TXT x11461
f. TXT x11462
f. TXT x11463
f. TXT x11464
f. TXT x11465
f. TXT x11466
f. TXT x11467
f. TXT x11468
f. TXT x11469
f. TXT x11470
f. TXT x11471
f. TXT x11472
f. TXT x11473
f. TXT x11474
f. TXT x11475
f. TXT x11476
f. TXT x11477
f. TXT x11478
f. TXT x11479
f. TXT x11480
f. TXT x11481
f. TXT x11482
f. TXT x11483
f. TXT x11484
f. TXT x11485
f. TXT x11486
f. TXT x11487
f. TXT x11488
f. TXT x11489
f. TXT x11490
f. TXT x11491
f. TXT x11492
f. TXT x11493
f. TXT x11494
f. TXT x11495
f. TXT x11496
f. TXT x11497
f. TXT x11498
f. TXT x11499
f. TXT x11500
f. TXT x11501
f. TXT x11502
f. TXT x11503
f. TXT x11504
f. TXT x11505
f. TXT x11506
f. TXT x11507
f. TXT x11508
f. TXT x11509
f. TXT x11510
f. TXT x11511
f. TXT x11512
f. TXT x11513
f. TXT x11514
f. TXT x11515
f. TXT x11516
f. TXT x11517
f. TXT x11518
f. TXT x11519
yzy.z. TXT *
f. TXT x11521
f. TXT x11522
f. TXT x11523
f. TXT x11524
f. TXT x11525
f. TXT x11526
f. TXT x11527
f. TXT x11528
f. TXT x11529
f. TXT x11530
f. TXT x11531
f. TXT x11532
f. TXT x11533
f. TXT x11534
f. TXT x11535
f. TXT x11536
f. TXT x11537
f. TXT x11538
f. TXT x11539
f. TXT x11540
f. TXT x11541
f. TXT x11542
f. TXT x11543
f. TXT x11544
f. TXT x11545
f. TXT x11546
f. TXT x11547
f. TXT x11548
f. TXT x11549
f. TXT x11550
f. TXT x11551
f. TXT x11552
f. TXT x11553
f. TXT x11554
f. TXT x11555
f. TXT x11556
f. TXT x11557
f. TXT x11558
f. TXT x11559
f. TXT x11560
f. TXT x11561
f. TXT x11562
f. TXT x11563
f. TXT x11564
f. TXT x11565
f. TXT x11566
f. TXT x11567
f. TXT x11568
f. TXT x11569
f. TXT x11570
f. TXT x11571
f. TXT x11572
f. TXT x11573
f. TXT x11574
f. TXT x11575
f. TXT x11576
f. TXT x11577
f. TXT x11578
f. TXT x11579
f. TXT x11580
f. TXT x11581
f. TXT x11582
f. TXT x11583
c- NS ac0b
f. TXT x11585
f. TXT x11586
f. TXT x11587
f. TXT x11588
f. TXT x11589
f. TXT x11590
f. TXT x11591
f. TXT x11592
f. TXT x11593
f. TXT x11594
f. TXT x11595
f. TXT x11596
f. TXT x11597
f. TXT x11598
f. TXT x11599
f. TXT x11600
f. TXT x11601
f. TXT x11602
f. TXT x11603
f. TXT x11604
f. TXT x11605
f. TXT x11606
f. TXT x11607
f. TXT x11608
f. TXT x11609
f. TXT x11610
f. TXT x11611
f. TXT x11612
f. TXT x11613
f. TXT x11614
f. TXT x11615
f. TXT x11616
f. TXT x11617
f. TXT x11618
f. TXT x11619
f. TXT x11620
f. TXT x11621
f. TXT x11622
f. TXT x11623
f. TXT x11624
f. TXT x11625
f. TXT x11626
f. TXT x11627
f. TXT x11628
f. TXT x11629
f. TXT x11630
f. TXT x11631
f. TXT x11632
f. TXT x11633
f. TXT x11634
f. TXT x11635
f. TXT x11636
f. TXT x11637
f. TXT x11638
f. TXT x11639
f. TXT x11640
f. TXT x11641
f. TXT x11642
f. TXT x11643
f. TXT x11644
f. TXT x11645
f. TXT x11646
f. TXT x11647
-z NS 0
f. TXT x11649
f. TXT x11650
f. TXT x11651
f. TXT x11652
f. TXT x11653
f. TXT x11654
f. TXT x11655
f. TXT x11656
f. TXT x11657
f. TXT x11658
f. TXT x11659
f. TXT x11660
f. TXT x11661
f. TXT x11662
f. TXT x11663
f. TXT x11664
f. TXT x11665
f. TXT x11666
f. TXT x11667
f. TXT x11668
f. TXT x11669
f. TXT x11670
f. TXT x11671
f. TXT x11672
f. TXT x11673
f. TXT x11674
f. TXT x11675
f. TXT x11676
f. TXT x11677
f. TXT x11678
f. TXT x11679
f. TXT x11680
f. TXT x11681
f. TXT x11682
f. TXT x11683
f. TXT x11684
f. TXT x11685
f. TXT x11686
f. TXT x11687
f. TXT x11688
f. TXT x11689
f. TXT x11690
f. TXT x11691
f. TXT x11692
f. TXT x11693
f. TXT x11694
f. TXT x11695
f. TXT x11696
f. TXT x11697
f. TXT x11698
f. TXT x11699
f. TXT x11700
f. TXT x11701
f. TXT x11702
f. TXT x11703
f. TXT x11704
f. TXT x11705
f. TXT x11706
f. TXT x11707
f. TXT x11708
f. TXT x11709
f. TXT x11710
f. TXT x11711
xz NS y 0z0a
f. TXT x11713
f. TXT x11714
f. TXT x11715
f. TXT x11716
f. TXT x11717
f. TXT x11718
f. TXT x11719
f. TXT x11720
f. TXT x11721
f. TXT x11722
f. TXT x11723
f. TXT x11724
f. TXT x11725
f. TXT x11726
f. TXT x11727
f. TXT x11728
f. TXT x11729
f. TXT x11730
f. TXT x11731
f. TXT x11732
f. TXT x11733
f. TXT x11734
f. TXT x11735
f. TXT x11736
f. TXT x11737
f. TXT x11738
f. TXT x11739
f. TXT x11740
f. TXT x11741
f. TXT x11742
f. TXT x11743
f. TXT x11744
f. TXT x11745
f. TXT x11746
f. TXT x11747
f. TXT x11748
f. TXT x11749
f. TXT x11750
f. TXT x11751
f. TXT x11752
f. TXT x11753
f. TXT x11754
f. TXT x11755
f. TXT x11756
f. TXT x11757
f. TXT x11758
f. TXT x11759
f. TXT x11760
f. TXT x11761
f. TXT x11762
f. TXT x11763
f. TXT x11764
f. TXT x11765
f. TXT x11766
f. TXT x11767
f. TXT x11768
f. TXT x11769
f. TXT x11770
f. TXT x11771
f. TXT x11772
f. TXT x11773
f. TXT x11774
f. TXT x11775

f. TXT x11777
f. TXT x11778
f. TXT x11779
f. TXT x11780
f. TXT x11781
f. TXT x11782
f. TXT x11783
f. TXT x11784
f. TXT x11785
f. TXT x11786
f. TXT x11787
f. TXT x11788
f. TXT x11789
f. TXT x11790
f. TXT x11791
f. TXT x11792
f. TXT x11793
f. TXT x11794
f. TXT x11795
f. TXT x11796
f. TXT x11797
f. TXT x11798
f. TXT x11799
f. TXT x11800
f. TXT x11801
f. TXT x11802
f. TXT x11803
f. TXT x11804
f. TXT x11805
f. TXT x11806
f. TXT x11807
f. TXT x11808
f. TXT x11809
f. TXT x11810
f. TXT x11811
f. TXT x11812
f. TXT x11813
f. TXT x11814
f. TXT x11815
f. TXT x11816
f. TXT x11817
f. TXT x11818
f. TXT x11819
f. TXT x11820
f. TXT x11821
f. TXT x11822
f. TXT x11823
f. TXT x11824
f. TXT x11825
f. TXT x11826
f. TXT x11827
f. TXT x11828
f. TXT x11829
f. TXT x11830
f. TXT x11831
f. TXT x11832
f. TXT x11833
f. TXT x11834
f. TXT x11835
f. TXT x11836
f. TXT x11837
f. TXT x11838
f. TXT x11839
 A 0
f. TXT x11841
f. TXT x11842
f. TXT x11843
f. TXT x11844
f. TXT x11845
f. TXT x11846
f. TXT x11847
f. TXT x11848
f. TXT x11849
f. TXT x11850
f. TXT x11851
f. TXT x11852
f. TXT x11853
f. TXT x11854
f. TXT x11855
f. TXT x11856
f. TXT x11857
f. TXT x11858
f. TXT x11859
f. TXT x11860
f. TXT x11861
f. TXT x11862
f. TXT x11863
f. TXT x11864
f. TXT x11865
f. TXT x11866
f. TXT x11867
f. TXT x11868
f. TXT x11869
f. TXT x11870
f. TXT x11871
f. TXT x11872
f. TXT x11873
f. TXT x11874
f. TXT x11875
f. TXT x11876
f. TXT x11877
f. TXT x11878
f. TXT x11879
f. TXT x11880
f. TXT x11881
f. TXT x11882
f. TXT x11883
f. TXT x11884
f. TXT x11885
f. TXT x11886
f. TXT x11887
f. TXT x11888
f. TXT x11889
f. TXT x11890
f. TXT x11891
f. TXT x11892
f. TXT x11893
f. TXT x11894
f. TXT x11895
f. TXT x11896
f. TXT x11897
f. TXT x11898
f. TXT x11899
f. TXT x11900
f. TXT x11901
f. TXT x11902
f. TXT x11903
$TTL 82418
f. TXT x11905
f. TXT x11906
f. TXT x11907
f. TXT x11908
f. TXT x11909
f. TXT x11910
f. TXT x11911
f. TXT x11912
f. TXT x11913
f. TXT x11914
f. TXT x11915
f. TXT x11916
f. TXT x11917
f. TXT x11918
f. TXT x11919
f. TXT x11920
f. TXT x11921
f. TXT x11922
f. TXT x11923
f. TXT x11924
f. TXT x11925
f. TXT x11926
f. TXT x11927
f. TXT x11928
f. TXT x11929
f. TXT x11930
f. TXT x11931
f. TXT x11932
f. TXT x11933
f. TXT x11934
f. TXT x11935
f. TXT x11936
f. TXT x11937
f. TXT x11938
f. TXT x11939
f. TXT x11940
f. TXT x11941
f. TXT x11942
f. TXT x11943
f. TXT x11944
f. TXT x11945
f. TXT x11946
f. TXT x11947
f. TXT x11948
f. TXT x11949
f. TXT x11950
f. TXT x11951
f. TXT x11952
f. TXT x11953
f. TXT x11954
f. TXT x11955
f. TXT x11956
f. TXT x11957
f. TXT x11958
f. TXT x11959
f. TXT x11960
f. TXT x11961
f. TXT x11962
f. TXT x11963
f. TXT x11964
f. TXT x11965
f. TXT x11966
f. TXT x11967
* A - *a
f. TXT x11969
f. TXT x11970
f. TXT x11971
f. TXT x11972
f. TXT x11973
f. TXT x11974
f. TXT x11975
f. TXT x11976
f. TXT x11977
f. TXT x11978
f. TXT x11979
f. TXT x11980
f. TXT x11981
f. TXT x11982
f. TXT x11983
f. TXT x11984
f. TXT x11985
f. TXT x11986
f. TXT x11987
f. TXT x11988
f. TXT x11989
f. TXT x11990
f. TXT x11991
f. TXT x11992
f. TXT x11993
f. TXT x11994
f. TXT x11995
f. TXT x11996
f. TXT x11997
f. TXT x11998
f. TXT x11999
f. TXT x12000
f. TXT x12001
f. TXT x12002
f. TXT x12003
f. TXT x12004
f. TXT x12005
f. TXT x12006
f. TXT x12007
f. TXT x12008
f. TXT x12009
f. TXT x12010
f. TXT x12011
f. TXT x12012
f. TXT x12013
f. TXT x12014
f. TXT x12015
f. TXT x12016
f. TXT x12017
f. TXT x12018
f. TXT x12019
f. TXT x12020
f. TXT x12021
f. TXT x12022
f. TXT x12023
f. TXT x12024
f. TXT x12025
f. TXT x12026
f. TXT x12027
f. TXT x12028
f. TXT x12029
f. TXT x12030
f. TXT x12031
 TXT y- c*z ---
f. TXT x12033
f. TXT x12034
f. TXT x12035
f. TXT x12036
f. TXT x12037
f. TXT x12038
f. TXT x12039
f. TXT x12040
f. TXT x12041
f. TXT x12042
f. TXT x12043
f. TXT x12044
f. TXT x12045
f. TXT x12046
f. TXT x12047
f. TXT x12048
f. TXT x12049
f. TXT x12050
f. TXT x12051
f. TXT x12052
f. TXT x12053
f. TXT x12054
f. TXT x12055
f. TXT x12056
f. TXT x12057
f. TXT x12058
f. TXT x12059
f. TXT x12060
f. TXT x12061
f. TXT x12062
f. TXT x12063
f. TXT x12064
f. TXT x12065
f. TXT x12066
f. TXT x12067
f. TXT x12068
f. TXT x12069
f. TXT x12070
f. TXT x12071
f. TXT x12072
f. TXT x12073
f. TXT x12074
f. TXT x12075
f. TXT x12076
f. TXT x12077
f. TXT x12078
f. TXT x12079
f. TXT x12080
f. TXT x12081
f. TXT x12082
f. TXT x12083
f. TXT x12084
f. TXT x12085
f. TXT x12086
f. TXT x12087
f. TXT x12088
f. TXT x12089
f. TXT x12090
f. TXT x12091
f. TXT x12092
f. TXT x12093
f. TXT x12094
f. TXT x12095
@ A *
f. TXT x12097
f. TXT x12098
f. TXT x12099
f. TXT x12100
f. TXT x12101
f. TXT x12102
f. TXT x12103
f. TXT x12104
f. TXT x12105
f. TXT x12106
f. TXT x12107
f. TXT x12108
f. TXT x12109
f. TXT x12110
f. TXT x12111
f. TXT x12112
f. TXT x12113
f. TXT x12114
f. TXT x12115
f. TXT x12116
f. TXT x12117
f. TXT x12118
f. TXT x12119
f. TXT x12120
f. TXT x12121
f. TXT x12122
f. TXT x12123
f. TXT x12124
f. TXT x12125
f. TXT x12126
f. TXT x12127
f. TXT x12128
f. TXT x12129
f. TXT x12130
f. TXT x12131
f. TXT x12132
f. TXT x12133
f. TXT x12134
f. TXT x12135
f. TXT x12136
f. TXT x12137
f. TXT x12138
f. TXT x12139
f. TXT x12140
f. TXT x12141
f. TXT x12142
f. TXT x12143
f. TXT x12144
f. TXT x12145
f. TXT x12146
f. TXT x12147
f. TXT x12148
f. TXT x12149
f. TXT x12150
f. TXT x12151
f. TXT x12152
f. TXT x12153
f. TXT x12154
f. TXT x12155
f. TXT x12156
f. TXT x12157
f. TXT x12158
f. TXT x12159
@ NS * z- xz
f. TXT x12161
f. TXT x12162
f. TXT x12163
f. TXT x12164
f. TXT x12165
f. TXT x12166
f. TXT x12167
f. TXT x12168
f. TXT x12169
f. TXT x12170
f. TXT x12171
f. TXT x12172
f. TXT x12173
f. TXT x12174
f. TXT x12175
f. TXT x12176
f. TXT x12177
f. TXT x12178
f. TXT x12179
f. TXT x12180
f. TXT x12181
f. TXT x12182
f. TXT x12183
f. TXT x12184
f. TXT x12185
f. TXT x12186
f. TXT x12187
f. TXT x12188
f. TXT x12189
f. TXT x12190
f. TXT x12191
f. TXT x12192
f. TXT x12193
f. TXT x12194
f. TXT x12195
f. TXT x12196
f. TXT x12197
f. TXT x12198
f. TXT x12199
f. TXT x12200
f. TXT x12201
f. TXT x12202
f. TXT x12203
f. TXT x12204
f. TXT x12205
f. TXT x12206
f. TXT x12207
f. TXT x12208
f. TXT x12209
f. TXT x12210
f. TXT x12211
f. TXT x12212
f. TXT x12213
f. TXT x12214
f. TXT x12215
f. TXT x12216
f. TXT x12217
f. TXT x12218
f. TXT x12219
f. TXT x12220
f. TXT x12221
f. TXT x12222
f. TXT x12223

f. TXT x12225
f. TXT x12226
f. TXT x12227
f. TXT x12228
f. TXT x12229
f. TXT x12230
f. TXT x12231
f. TXT x12232
f. TXT x12233
f. TXT x12234
f. TXT x12235
f. TXT x12236
f. TXT x12237
f. TXT x12238
f. TXT x12239
f. TXT x12240
f. TXT x12241
f. TXT x12242
f. TXT x12243
f. TXT x12244
f. TXT x12245
f. TXT x12246
f. TXT x12247
f. TXT x12248
f. TXT x12249
f. TXT x12250
f. TXT x12251
f. TXT x12252
f. TXT x12253
f. TXT x12254
f. TXT x12255
f. TXT x12256
f. TXT x12257
f. TXT x12258
f. TXT x12259
f. TXT x12260
f. TXT x12261
f. TXT x12262
f. TXT x12263
f. TXT x12264
f. TXT x12265
f. TXT x12266
f. TXT x12267
f. TXT x12268
f. TXT x12269
f. TXT x12270
f. TXT x12271
f. TXT x12272
f. TXT x12273
f. TXT x12274
f. TXT x12275
f. TXT x12276
f. TXT x12277
f. TXT x12278
f. TXT x12279
f. TXT x12280
f. TXT x12281
f. TXT x12282
f. TXT x12283
f. TXT x12284
f. TXT x12285
f. TXT x12286
f. TXT x12287
@ A xc aczc *xax
f. TXT x12289
f. TXT x12290
f. TXT x12291
f. TXT x12292
f. TXT x12293
f. TXT x12294
f. TXT x12295
f. TXT x12296
f. TXT x12297
f. TXT x12298
f. TXT x12299
f. TXT x12300
f. TXT x12301
f. TXT x12302
f. TXT x12303
f. TXT x12304
f. TXT x12305
f. TXT x12306
f. TXT x12307
f. TXT x12308
f. TXT x12309
f. TXT x12310
f. TXT x12311
f. TXT x12312
f. TXT x12313
f. TXT x12314
f. TXT x12315
f. TXT x12316
f. TXT x12317
f. TXT x12318
f. TXT x12319
f. TXT x12320
f. TXT x12321
f. TXT x12322
f. TXT x12323
f. TXT x12324
f. TXT x12325
f. TXT x12326
f. TXT x12327
f. TXT x12328
f. TXT x12329
f. TXT x12330
f. TXT x12331
f. TXT x12332
f. TXT x12333
f. TXT x12334
f. TXT x12335
f. TXT x12336
f. TXT x12337
f. TXT x12338
f. TXT x12339
f. TXT x12340
f. TXT x12341
f. TXT x12342
f. TXT x12343
f. TXT x12344
f. TXT x12345
f. TXT x12346
f. TXT x12347
f. TXT x12348
f. TXT x12349
f. TXT x12350
f. TXT x12351
 TXT a xb
f. TXT x12353
f. TXT x12354
f. TXT x12355
f. TXT x12356
f. TXT x12357
f. TXT x12358
f. TXT x12359
f. TXT x12360
f. TXT x12361
f. TXT x12362
f. TXT x12363
f. TXT x12364
f. TXT x12365
f. TXT x12366
f. TXT x12367
f. TXT x12368
f. TXT x12369
f. TXT x12370
f. TXT x12371
f. TXT x12372
f. TXT x12373
f. TXT x12374
f. TXT x12375
f. TXT x12376
f. TXT x12377
f. TXT x12378
f. TXT x12379
f. TXT x12380
f. TXT x12381
f. TXT x12382
f. TXT x12383
f. TXT x12384
f. TXT x12385
f. TXT x12386
f. TXT x12387
f. TXT x12388
f. TXT x12389
f. TXT x12390
f. TXT x12391
f. TXT x12392
f. TXT x12393
f. TXT x12394
f. TXT x12395
f. TXT x12396
f. TXT x12397
f. TXT x12398
f. TXT x12399
f. TXT x12400
f. TXT x12401
f. TXT x12402
f. TXT x12403
f. TXT x12404
f. TXT x12405
f. TXT x12406
f. TXT x12407
f. TXT x12408
f. TXT x12409
f. TXT x12410
f. TXT x12411
f. TXT x12412
f. TXT x12413
f. TXT x12414
f. TXT x12415
 A ab0 *0ba bc
f. TXT x12417
f. TXT x12418
f. TXT x12419
f. TXT x12420
f. TXT x12421
f. TXT x12422
f. TXT x12423
f. TXT x12424
f. TXT x12425
f. TXT x12426
f. TXT x12427
f. TXT x12428
f. TXT x12429
f. TXT x12430
f. TXT x12431
f. TXT x12432
f. TXT x12433
f. TXT x12434
f. TXT x12435
f. TXT x12436
f. TXT x12437
f. TXT x12438
f. TXT x12439
f. TXT x12440
f. TXT x12441
f. TXT x12442
f. TXT x12443
f. TXT x12444
f. TXT x12445
f. TXT x12446
f. TXT x12447
f. TXT x12448
f. TXT x12449
f. TXT x12450
f. TXT x12451
f. TXT x12452
f. TXT x12453
f. TXT x12454
f. TXT x12455
f. TXT x12456
f. TXT x12457
f. TXT x12458
f. TXT x12459
f. TXT x12460
f. TXT x12461
f. TXT x12462
f. TXT x12463
f. TXT x12464
f. TXT x12465
f. TXT x12466
f. TXT x12467
f. TXT x12468
f. TXT x12469
f. TXT x12470
f. TXT x12471
f. TXT x12472
f. TXT x12473
f. TXT x12474
f. TXT x12475
f. TXT x12476
f. TXT x12477
f. TXT x12478
f. TXT x12479
; cy
f. TXT x12481
f. TXT x12482
f. TXT x12483
f. TXT x12484
f. TXT x12485
f. TXT x12486
f. TXT x12487
f. TXT x12488
f. TXT x12489
f. TXT x12490
f. TXT x12491
f. TXT x12492
f. TXT x12493
f. TXT x12494
f. TXT x12495
f. TXT x12496
f. TXT x12497
f. TXT x12498
f. TXT x12499
f. TXT x12500
f. TXT x12501
f. TXT x12502
f. TXT x12503
f. TXT x12504
f. TXT x12505
f. TXT x12506
f. TXT x12507
f. TXT x12508
f. TXT x12509
f. TXT x12510
f. TXT x12511
f. TXT x12512
f. TXT x12513
f. TXT x12514
f. TXT x12515
f. TXT x12516
f. TXT x12517
f. TXT x12518
f. TXT x12519
f. TXT x12520
f. TXT x12521
f. TXT x12522
f. TXT x12523
f. TXT x12524
f. TXT x12525
f. TXT x12526
f. TXT x12527
f. TXT x12528
f. TXT x12529
f. TXT x12530
f. TXT x12531
f. TXT x12532
f. TXT x12533
f. TXT x12534
f. TXT x12535
f. TXT x12536
f. TXT x12537
f. TXT x12538
f. TXT x12539
f. TXT x12540
f. TXT x12541
f. TXT x12542
f. TXT x12543
 A - z-c c
f. TXT x12545
f. TXT x12546
f. TXT x12547
f. TXT x12548
f. TXT x12549
f. TXT x12550
f. TXT x12551
f. TXT x12552
f. TXT x12553
f. TXT x12554
f. TXT x12555
f. TXT x12556
f. TXT x12557
f. TXT x12558
f. TXT x12559
f. TXT x12560
f. TXT x12561
f. TXT x12562
f. TXT x12563
f. TXT x12564
f. TXT x12565
f. TXT x12566
f. TXT x12567
f. TXT x12568
f. TXT x12569
f. TXT x12570
f. TXT x12571
f. TXT x12572
f. TXT x12573
f. TXT x12574
f. TXT x12575
f. TXT x12576
f. TXT x12577
f. TXT x12578
f. TXT x12579
f. TXT x12580
f. TXT x12581
f. TXT x12582
f. TXT x12583
f. TXT x12584
f. TXT x12585
f. TXT x12586
f. TXT x12587
f. TXT x12588
f. TXT x12589
f. TXT x12590
f. TXT x12591
f. TXT x12592
f. TXT x12593
f. TXT x12594
f. TXT x12595
f. TXT x12596
f. TXT x12597
f. TXT x12598
f. TXT x12599
f. TXT x12600
f. TXT x12601
f. TXT x12602
f. TXT x12603
f. TXT x12604
f. TXT x12605
f. TXT x12606
f. TXT x12607
 NS 0c 0a
f. TXT x12609
f. TXT x12610
f. TXT x12611
f. TXT x12612
f. TXT x12613
f. TXT x12614
f. TXT x12615
f. TXT x12616
f. TXT x12617
f. TXT x12618
f. TXT x12619
f. TXT x12620
f. TXT x12621
f. TXT x12622
f. TXT x12623
f. TXT x12624
f. TXT x12625
f. TXT x12626
f. TXT x12627
f. TXT x12628
f. TXT x12629
f. TXT x12630
f. TXT x12631
f. TXT x12632
f. TXT x12633
f. TXT x12634
f. TXT x12635
f. TXT x12636
f. TXT x12637
f. TXT x12638
f. TXT x12639
f. TXT x12640
f. TXT x12641
f. TXT x12642
f. TXT x12643
f. TXT x12644
f. TXT x12645
f. TXT x12646
f. TXT x12647
f. TXT x12648
f. TXT x12649
f. TXT x12650
f. TXT x12651
f. TXT x12652
f. TXT x12653
f. TXT x12654
f. TXT x12655
f. TXT x12656
f. TXT x12657
f. TXT x12658
f. TXT x12659
f. TXT x12660
f. TXT x12661
f. TXT x12662
f. TXT x12663
f. TXT x12664
f. TXT x12665
f. TXT x12666
f. TXT x12667
f. TXT x12668
f. TXT x12669
f. TXT x12670
f. TXT x12671
z. NS cc0
f. TXT x12673
f. TXT x12674
f. TXT x12675
f. TXT x12676
f. TXT x12677
f. TXT x12678
f. TXT x12679
f. TXT x12680
f. TXT x12681
f. TXT x12682
f. TXT x12683
f. TXT x12684
f. TXT x12685
f. TXT x12686
f. TXT x12687
f. TXT x12688
f. TXT x12689
f. TXT x12690
f. TXT x12691
f. TXT x12692
f. TXT x12693
f. TXT x12694
f. TXT x12695
f. TXT x12696
f. TXT x12697
f. TXT x12698
f. TXT x12699
f. TXT x12700
f. TXT x12701
f. TXT x12702
f. TXT x12703
f. TXT x12704
f. TXT x12705
f. TXT x12706
f. TXT x12707
f. TXT x12708
f. TXT x12709
f. TXT x12710
f. TXT x12711
f. TXT x12712
f. TXT x12713
f. TXT x12714
f. TXT x12715
f. TXT x12716
f. TXT x12717
f. TXT x12718
f. TXT x12719
f. TXT x12720
f. TXT x12721
f. TXT x12722
f. TXT x12723
f. TXT x12724
f. TXT x12725
f. TXT x12726
f. TXT x12727
f. TXT x12728
f. TXT x12729
f. TXT x12730
f. TXT x12731
f. TXT x12732
f. TXT x12733
f. TXT x12734
f. TXT x12735
; -zc
f. TXT x12737
f. TXT x12738
f. TXT x12739
f. TXT x12740
f. TXT x12741
f. TXT x12742
f. TXT x12743
f. TXT x12744
f. TXT x12745
f. TXT x12746
f. TXT x12747
f. TXT x12748
f. TXT x12749
f. TXT x12750
f. TXT x12751
f. TXT x12752
f. TXT x12753
f. TXT x12754
f. TXT x12755
f. TXT x12756
f. TXT x12757
f. TXT x12758
f. TXT x12759
f. TXT x12760
f. TXT x12761
f. TXT x12762
f. TXT x12763
f. TXT x12764
f. TXT x12765
f. TXT x12766
f. TXT x12767
f. TXT x12768
f. TXT x12769
f. TXT x12770
f. TXT x12771
f. TXT x12772
f. TXT x12773
f. TXT x12774
f. TXT x12775
f. TXT x12776
f. TXT x12777
f. TXT x12778
f. TXT x12779
f. TXT x12780
f. TXT x12781
f. TXT x12782
f. TXT x12783
f. TXT x12784
f. TXT x12785
f. TXT x12786
f. TXT x12787
f. TXT x12788
f. TXT x12789
f. TXT x12790
f. TXT x12791
f. TXT x12792
f. TXT x12793
f. TXT x12794
f. TXT x12795
f. TXT x12796
f. TXT x12797
f. TXT x12798
f. TXT x12799
**.b. A a0
f. TXT x12801
f. TXT x12802
f. TXT x12803
f. TXT x12804
f. TXT x12805
f. TXT x12806
f. TXT x12807
f. TXT x12808
f. TXT x12809
f. TXT x12810
f. TXT x12811
f. TXT x12812
f. TXT x12813
f. TXT x12814
f. TXT x12815
f. TXT x12816
f. TXT x12817
f. TXT x12818
f. TXT x12819
f. TXT x12820
f. TXT x12821
f. TXT x12822
f. TXT x12823
f. TXT x12824
f. TXT x12825
f. TXT x12826
f. TXT x12827
f. TXT x12828
f. TXT x12829
f. TXT x12830
f. TXT x12831
f. TXT x12832
f. TXT x12833
f. TXT x12834
f. TXT x12835
f. TXT x12836
f. TXT x12837
f. TXT x12838
f. TXT x12839
f. TXT x12840
f. TXT x12841
f. TXT x12842
f. TXT x12843
f. TXT x12844
f. TXT x12845
f. TXT x12846
f. TXT x12847
f. TXT x12848
f. TXT x12849
f. TXT x12850
f. TXT x12851
f. TXT x12852
f. TXT x12853
f. TXT x12854
f. TXT x12855
f. TXT x12856
f. TXT x12857
f. TXT x12858
f. TXT x12859
f. TXT x12860
f. TXT x12861
f. TXT x12862
f. TXT x12863
@ NS vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv *yb
f. TXT x12865
f. TXT x12866
f. TXT x12867
f. TXT x12868
f. TXT x12869
f. TXT x12870
f. TXT x12871
f. TXT x12872
f. TXT x12873
f. TXT x12874
f. TXT x12875
f. TXT x12876
f. TXT x12877
f. TXT x12878
f. TXT x12879
f. TXT x12880
f. TXT x12881
f. TXT x12882
f. TXT x12883
f. TXT x12884
f. TXT x12885
f. TXT x12886
f. TXT x12887
f. TXT x12888
f. TXT x12889
f. TXT x12890
f. TXT x12891
f. TXT x12892
f. TXT x12893
f. TXT x12894
f. TXT x12895
f. TXT x12896
f. TXT x12897
f. TXT x12898
f. TXT x12899
f. TXT x12900
f. TXT x12901
f. TXT x12902
f. TXT x12903
f. TXT x12904
f. TXT x12905
f. TXT x12906
f. TXT x12907
f. TXT x12908
f. TXT x12909
f. TXT x12910
f. TXT x12911
f. TXT x12912
f. TXT x12913
f. TXT x12914
f. TXT x12915
f. TXT x12916
f. TXT x12917
f. TXT x12918
f. TXT x12919
f. TXT x12920
f. TXT x12921
f. TXT x12922
f. TXT x12923
f. TXT x12924
f. TXT x12925
f. TXT x12926
f. TXT x12927
; b-b
f. TXT x12929
f. TXT x12930
f. TXT x12931
f. TXT x12932
f. TXT x12933
f. TXT x12934
f. TXT x12935
f. TXT x12936
f. TXT x12937
f. TXT x12938
f. TXT x12939
f. TXT x12940
f. TXT x12941
f. TXT x12942
f. TXT x12943
f. TXT x12944
f. TXT x12945
f. TXT x12946
f. TXT x12947
f. TXT x12948
f. TXT x12949
f. TXT x12950
f. TXT x12951
f. TXT x12952
f. TXT x12953
f. TXT x12954
f. TXT x12955
f. TXT x12956
f. TXT x12957
f. TXT x12958
f. TXT x12959
f. TXT x12960
f. TXT x12961
f. TXT x12962
f. TXT x12963
f. TXT x12964
f. TXT x12965
f. TXT x12966
f. TXT x12967
f. TXT x12968
f. TXT x12969
f. TXT x12970
f. TXT x12971
f. TXT x12972
f. TXT x12973
f. TXT x12974
f. TXT x12975
f. TXT x12976
f. TXT x12977
f. TXT x12978
f. TXT x12979
f. TXT x12980
f. TXT x12981
f. TXT x12982
f. TXT x12983
f. TXT x12984
f. TXT x12985
f. TXT x12986
f. TXT x12987
f. TXT x12988
f. TXT x12989
f. TXT x12990
f. TXT x12991

f. TXT x12993
f. TXT x12994
f. TXT x12995
f. TXT x12996
f. TXT x12997
f. TXT x12998
f. TXT x12999
f. TXT x13000
f. TXT x13001
f. TXT x13002
f. TXT x13003
f. TXT x13004
f. TXT x13005
f. TXT x13006
f. TXT x13007
f. TXT x13008
f. TXT x13009
f. TXT x13010
f. TXT x13011
f. TXT x13012
f. TXT x13013
f. TXT x13014
f. TXT x13015
f. TXT x13016
f. TXT x13017
f. TXT x13018
f. TXT x13019
f. TXT x13020
f. TXT x13021
f. TXT x13022
f. TXT x13023
f. TXT x13024
f. TXT x13025
f. TXT x13026
f. TXT x13027
f. TXT x13028
f. TXT x13029
f. TXT x13030
f. TXT x13031
f. TXT x13032
f. TXT x13033
f. TXT x13034
f. TXT x13035
f. TXT x13036
f. TXT x13037
f. TXT x13038
f. TXT x13039
f. TXT x13040
f. TXT x13041
f. TXT x13042
f. TXT x13043
f. TXT x13044
f. TXT x13045
f. TXT x13046
f. TXT x13047
f. TXT x13048
f. TXT x13049
f. TXT x13050
f. TXT x13051
f. TXT x13052
f. TXT x13053
f. TXT x13054
f. TXT x13055
 NS *zxc
f. TXT x13057
f. TXT x13058
f. TXT x13059
f. TXT x13060
f. TXT x13061
f. TXT x13062
f. TXT x13063
f. TXT x13064
f. TXT x13065
f. TXT x13066
f. TXT x13067
f. TXT x13068
f. TXT x13069
f. TXT x13070
f. TXT x13071
f. TXT x13072
f. TXT x13073
f. TXT x13074
f. TXT x13075
f. TXT x13076
f. TXT x13077
f. TXT x13078
f. TXT x13079
f. TXT x13080
f. TXT x13081
f. TXT x13082
f. TXT x13083
f. TXT x13084
f. TXT x13085
f. TXT x13086
f. TXT x13087
f. TXT x13088
f. TXT x13089
f. TXT x13090
f. TXT x13091
f. TXT x13092
f. TXT x13093
f. TXT x13094
f. TXT x13095
f. TXT x13096
f. TXT x13097
f. TXT x13098
f. TXT x13099
f. TXT x13100
f. TXT x13101
f. TXT x13102
f. TXT x13103
f. TXT x13104
f. TXT x13105
f. TXT x13106
f. TXT x13107
f. TXT x13108
f. TXT x13109
f. TXT x13110
f. TXT x13111
f. TXT x13112
f. TXT x13113
f. TXT x13114
f. TXT x13115
f. TXT x13116
f. TXT x13117
f. TXT x13118
f. TXT x13119
$ORIGIN *xc0.0*y.
f. TXT x13121
f. TXT x13122
f. TXT x13123
f. TXT x13124
f. TXT x13125
f. TXT x13126
f. TXT x13127
f. TXT x13128
f. TXT x13129
f. TXT x13130
f. TXT x13131
f. TXT x13132
f. TXT x13133
f. TXT x13134
f. TXT x13135
f. TXT x13136
f. TXT x13137
f. TXT x13138
f. TXT x13139
f. TXT x13140
f. TXT x13141
f. TXT x13142
f. TXT x13143
f. TXT x13144
f. TXT x13145
f. TXT x13146
f. TXT x13147
f. TXT x13148
f. TXT x13149
f. TXT x13150
f. TXT x13151
f. TXT x13152
f. TXT x13153
f. TXT x13154
f. TXT x13155
f. TXT x13156
f. TXT x13157
f. TXT x13158
f. TXT x13159
f. TXT x13160
f. TXT x13161
f. TXT x13162
f. TXT x13163
f. TXT x13164
f. TXT x13165
f. TXT x13166
f. TXT x13167
f. TXT x13168
f. TXT x13169
f. TXT x13170
f. TXT x13171
f. TXT x13172
f. TXT x13173
f. TXT x13174
f. TXT x13175
f. TXT x13176
f. TXT x13177
f. TXT x13178
f. TXT x13179
f. TXT x13180
f. TXT x13181
f. TXT x13182
f. TXT x13183
a.c0. NS cbcc
f. TXT x13185
f. TXT x13186
f. TXT x13187
f. TXT x13188
f. TXT x13189
f. TXT x13190
f. TXT x13191
f. TXT x13192
f. TXT x13193
f. TXT x13194
f. TXT x13195
f. TXT x13196
f. TXT x13197
f. TXT x13198
f. TXT x13199
f. TXT x13200
f. TXT x13201
f. TXT x13202
f. TXT x13203
f. TXT x13204
f. TXT x13205
f. TXT x13206
f. TXT x13207
f. TXT x13208
f. TXT x13209
f. TXT x13210
f. TXT x13211
f. TXT x13212
f. TXT x13213
f. TXT x13214
f. TXT x13215
f. TXT x13216
f. TXT x13217
f. TXT x13218
f. TXT x13219
f. TXT x13220
f. TXT x13221
f. TXT x13222
f. TXT x13223
f. TXT x13224
f. TXT x13225
f. TXT x13226
f. TXT x13227
f. TXT x13228
f. TXT x13229
f. TXT x13230
f. TXT x13231
f. TXT x13232
f. TXT x13233
f. TXT x13234
f. TXT x13235
f. TXT x13236
f. TXT x13237
f. TXT x13238
f. TXT x13239
f. TXT x13240
f. TXT x13241
f. TXT x13242
f. TXT x13243
f. TXT x13244
f. TXT x13245
f. TXT x13246
f. TXT x13247
@ NS *-- **z
f. TXT x13249
f. TXT x13250
f. TXT x13251
f. TXT x13252
f. TXT x13253
f. TXT x13254
f. TXT x13255
f. TXT x13256
f. TXT x13257
f. TXT x13258
f. TXT x13259
f. TXT x13260
f. TXT x13261
f. TXT x13262
f. TXT x13263
f. TXT x13264
f. TXT x13265
f. TXT x13266
f. TXT x13267
f. TXT x13268
f. TXT x13269
f. TXT x13270
f. TXT x13271
f. TXT x13272
f. TXT x13273
f. TXT x13274
f. TXT x13275
f. TXT x13276
f. TXT x13277
f. TXT x13278
f. TXT x13279
f. TXT x13280
f. TXT x13281
f. TXT x13282
f. TXT x13283
f. TXT x13284
f. TXT x13285
f. TXT x13286
f. TXT x13287
f. TXT x13288
f. TXT x13289
f. TXT x13290
f. TXT x13291
f. TXT x13292
f. TXT x13293
f. TXT x13294
f. TXT x13295
f. TXT x13296
f. TXT x13297
f. TXT x13298
f. TXT x13299
f. TXT x13300
f. TXT x13301
f. TXT x13302
f. TXT x13303
f. TXT x13304
f. TXT x13305
f. TXT x13306
f. TXT x13307
f. TXT x13308
f. TXT x13309
f. TXT x13310
f. TXT x13311
 TXT y -
f. TXT x13313
f. TXT x13314
f. TXT x13315
f. TXT x13316
f. TXT x13317
f. TXT x13318
f. TXT x13319
f. TXT x13320
f. TXT x13321
f. TXT x13322
f. TXT x13323
f. TXT x13324
f. TXT x13325
f. TXT x13326
f. TXT x13327
f. TXT x13328
f. TXT x13329
f. TXT x13330
f. TXT x13331
f. TXT x13332
f. TXT x13333
f. TXT x13334
f. TXT x13335
f. TXT x13336
f. TXT x13337
f. TXT x13338
f. TXT x13339
f. TXT x13340
f. TXT x13341
f. TXT x13342
f. TXT x13343
f. TXT x13344
f. TXT x13345
f. TXT x13346
f. TXT x13347
f. TXT x13348
f. TXT x13349
f. TXT x13350
f. TXT x13351
f. TXT x13352
f. TXT x13353
f. TXT x13354
f. TXT x13355
f. TXT x13356
f. TXT x13357
f. TXT x13358
f. TXT x13359
f. TXT x13360
f. TXT x13361
f. TXT x13362
f. TXT x13363
f. TXT x13364
f. TXT x13365
f. TXT x13366
f. TXT x13367
f. TXT x13368
f. TXT x13369
f. TXT x13370
f. TXT x13371
f. TXT x13372
f. TXT x13373
f. TXT x13374
f. TXT x13375
@ NS yba
f. TXT x13377
f. TXT x13378
f. TXT x13379
f. TXT x13380
f. TXT x13381
f. TXT x13382
f. TXT x13383
f. TXT x13384
f. TXT x13385
f. TXT x13386
f. TXT x13387
f. TXT x13388
f. TXT x13389
f. TXT x13390
f. TXT x13391
f. TXT x13392
f. TXT x13393
f. TXT x13394
f. TXT x13395
f. TXT x13396
f. TXT x13397
f. TXT x13398
f. TXT x13399
f. TXT x13400
f. TXT x13401
f. TXT x13402
f. TXT x13403
f. TXT x13404
f. TXT x13405
f. TXT x13406
f. TXT x13407
f. TXT x13408
f. TXT x13409
f. TXT x13410
f. TXT x13411
f. TXT x13412
f. TXT x13413
f. TXT x13414
f. TXT x13415
f. TXT x13416
f. TXT x13417
f. TXT x13418
f. TXT x13419
f. TXT x13420
f. TXT x13421
f. TXT x13422
f. TXT x13423
f. TXT x13424
f. TXT x13425
f. TXT x13426
f. TXT x13427
f. TXT x13428
f. TXT x13429
f. TXT x13430
f. TXT x13431
f. TXT x13432
f. TXT x13433
f. TXT x13434
f. TXT x13435
f. TXT x13436
f. TXT x13437
f. TXT x13438
f. TXT x13439
 A yyz -0a
f. TXT x13441
f. TXT x13442
f. TXT x13443
f. TXT x13444
f. TXT x13445
f. TXT x13446
f. TXT x13447
f. TXT x13448
f. TXT x13449
f. TXT x13450
f. TXT x13451
f. TXT x13452
f. TXT x13453
f. TXT x13454
f. TXT x13455
f. TXT x13456
f. TXT x13457
f. TXT x13458
f. TXT x13459
f. TXT x13460
f. TXT x13461
f. TXT x13462
f. TXT x13463
f. TXT x13464
f. TXT x13465
f. TXT x13466
f. TXT x13467
f. TXT x13468
f. TXT x13469
f. TXT x13470
f. TXT x13471
f. TXT x13472
f. TXT x13473
f. TXT x13474
f. TXT x13475
f. TXT x13476
f. TXT x13477
f. TXT x13478
f. TXT x13479
f. TXT x13480
f. TXT x13481
f. TXT x13482
f. TXT x13483
f. TXT x13484
f. TXT x13485
f. TXT x13486
f. TXT x13487
f. TXT x13488
f. TXT x13489
f. TXT x13490
f. TXT x13491
f. TXT x13492
f. TXT x13493
f. TXT x13494
f. TXT x13495
f. TXT x13496
f. TXT x13497
f. TXT x13498
f. TXT x13499
f. TXT x13500
f. TXT x13501
f. TXT x13502
f. TXT x13503
b0 TXT 0 a
f. TXT x13505
f. TXT x13506
f. TXT x13507
f. TXT x13508
f. TXT x13509
f. TXT x13510
f. TXT x13511
f. TXT x13512
f. TXT x13513
f. TXT x13514
f. TXT x13515
f. TXT x13516
f. TXT x13517
f. TXT x13518
f. TXT x13519
f. TXT x13520
f. TXT x13521
f. TXT x13522
f. TXT x13523
f. TXT x13524
f. TXT x13525
f. TXT x13526
f. TXT x13527
f. TXT x13528
f. TXT x13529
f. TXT x13530
f. TXT x13531
f. TXT x13532
f. TXT x13533
f. TXT x13534
f. TXT x13535
f. TXT x13536
f. TXT x13537
f. TXT x13538
f. TXT x13539
f. TXT x13540
f. TXT x13541
f. TXT x13542
f. TXT x13543
f. TXT x13544
f. TXT x13545
f. TXT x13546
f. TXT x13547
f. TXT x13548
f. TXT x13549
f. TXT x13550
f. TXT x13551
f. TXT x13552
f. TXT x13553
f. TXT x13554
f. TXT x13555
f. TXT x13556
f. TXT x13557
f. TXT x13558
f. TXT x13559
f. TXT x13560
f. TXT x13561
f. TXT x13562
f. TXT x13563
f. TXT x13564
f. TXT x13565
f. TXT x13566
f. TXT x13567
- A c
f. TXT x13569
f. TXT x13570
f. TXT x13571
f. TXT x13572
f. TXT x13573
f. TXT x13574
f. TXT x13575
f. TXT x13576
f. TXT x13577
f. TXT x13578
f. TXT x13579
f. TXT x13580
f. TXT x13581
f. TXT x13582
f. TXT x13583
f. TXT x13584
f. TXT x13585
f. TXT x13586
f. TXT x13587
f. TXT x13588
f. TXT x13589
f. TXT x13590
f. TXT x13591
f. TXT x13592
f. TXT x13593
f. TXT x13594
f. TXT x13595
f. TXT x13596
f. TXT x13597
f. TXT x13598
f. TXT x13599
f. TXT x13600
f. TXT x13601
f. TXT x13602
f. TXT x13603
f. TXT x13604
f. TXT x13605
f. TXT x13606
f. TXT x13607
f. TXT x13608
f. TXT x13609
f. TXT x13610
f. TXT x13611
f. TXT x13612
f. TXT x13613
f. TXT x13614
f. TXT x13615
f. TXT x13616
f. TXT x13617
f. TXT x13618
f. TXT x13619
f. TXT x13620
f. TXT x13621
f. TXT x13622
f. TXT x13623
f. TXT x13624
f. TXT x13625
f. TXT x13626
f. TXT x13627
f. TXT x13628
f. TXT x13629
f. TXT x13630
f. TXT x13631
; *a
f. TXT x13633
f. TXT x13634
f. TXT x13635
f. TXT x13636
f. TXT x13637
f. TXT x13638
f. TXT x13639
f. TXT x13640
f. TXT x13641
f. TXT x13642
f. TXT x13643
f. TXT x13644
f. TXT x13645
f. TXT x13646
f. TXT x13647
f. TXT x13648
f. TXT x13649
f. TXT x13650
f. TXT x13651
f. TXT x13652
f. TXT x13653
f. TXT x13654
f. TXT x13655
f. TXT x13656
f. TXT x13657
f. TXT x13658
f. TXT x13659
f. TXT x13660
f. TXT x13661
f. TXT x13662
f. TXT x13663
f. TXT x13664
f. TXT x13665
f. TXT x13666
f. TXT x13667
f. TXT x13668
f. TXT x13669
f. TXT x13670
f. TXT x13671
f. TXT x13672
f. TXT x13673
f. TXT x13674
f. TXT x13675
f. TXT x13676
f. TXT x13677
f. TXT x13678
f. TXT x13679
f. TXT x13680
f. TXT x13681
f. TXT x13682
f. TXT x13683
f. TXT x13684
f. TXT x13685
f. TXT x13686
f. TXT x13687
f. TXT x13688
f. TXT x13689
f. TXT x13690
f. TXT x13691
f. TXT x13692
f. TXT x13693
f. TXT x13694
f. TXT x13695
$TTL 56180
f. TXT x13697
f. TXT x13698
f. TXT x13699
f. TXT x13700
f. TXT x13701
f. TXT x13702
f. TXT x13703
f. TXT x13704
f. TXT x13705
f. TXT x13706
f. TXT x13707
f. TXT x13708
f. TXT x13709
f. TXT x13710
f. TXT x13711
f. TXT x13712
f. TXT x13713
f. TXT x13714
f. TXT x13715
f. TXT x13716
f. TXT x13717
f. TXT x13718
f. TXT x13719
f. TXT x13720
f. TXT x13721
f. TXT x13722
f. TXT x13723
f. TXT x13724
f. TXT x13725
f. TXT x13726
f. TXT x13727
f. TXT x13728
f. TXT x13729
f. TXT x13730
f. TXT x13731
f. TXT x13732
f. TXT x13733
f. TXT x13734
f. TXT x13735
f. TXT x13736
f. TXT x13737
f. TXT x13738
f. TXT x13739
f. TXT x13740
f. TXT x13741
f. TXT x13742
f. TXT x13743
f. TXT x13744
f. TXT x13745
f. TXT x13746
f. TXT x13747
f. TXT x13748
f. TXT x13749
f. TXT x13750
f. TXT x13751
f. TXT x13752
f. TXT x13753
f. TXT x13754
f. TXT x13755
f. TXT x13756
f. TXT x13757
f. TXT x13758
f. TXT x13759
@ NS bya y* -
f. TXT x13761
f. TXT x13762
f. TXT x13763
f. TXT x13764
f. TXT x13765
f. TXT x13766
f. TXT x13767
f. TXT x13768
f. TXT x13769
f. TXT x13770
f. TXT x13771
f. TXT x13772
f. TXT x13773
f. TXT x13774
f. TXT x13775
f. TXT x13776
f. TXT x13777
f. TXT x13778
f. TXT x13779
f. TXT x13780
f. TXT x13781
f. TXT x13782
f. TXT x13783
f. TXT x13784
f. TXT x13785
f. TXT x13786
f. TXT x13787
f. TXT x13788
f. TXT x13789
f. TXT x13790
f. TXT x13791
f. TXT x13792
f. TXT x13793
f. TXT x13794
f. TXT x13795
f. TXT x13796
f. TXT x13797
f. TXT x13798
f. TXT x13799
f. TXT x13800
f. TXT x13801
f. TXT x13802
f. TXT x13803
f. TXT x13804
f. TXT x13805
f. TXT x13806
f. TXT x13807
f. TXT x13808
f. TXT x13809
f. TXT x13810
f. TXT x13811
f. TXT x13812
f. TXT x13813
f. TXT x13814
f. TXT x13815
f. TXT x13816
f. TXT x13817
f. TXT x13818
f. TXT x13819
f. TXT x13820
f. TXT x13821
f. TXT x13822
f. TXT x13823
0a0. NS b -axz bbz*
f. TXT x13825
f. TXT x13826
f. TXT x13827
f. TXT x13828
f. TXT x13829
f. TXT x13830
f. TXT x13831
f. TXT x13832
f. TXT x13833
f. TXT x13834
f. TXT x13835
f. TXT x13836
f. TXT x13837
f. TXT x13838
f. TXT x13839
f. TXT x13840
f. TXT x13841
f. TXT x13842
f. TXT x13843
f. TXT x13844
f. TXT x13845
f. TXT x13846
f. TXT x13847
f. TXT x13848
f. TXT x13849
f. TXT x13850
f. TXT x13851
f. TXT x13852
f. TXT x13853
f. TXT x13854
f. TXT x13855
f. TXT x13856
f. TXT x13857
f. TXT x13858
f. TXT x13859
f. TXT x13860
f. TXT x13861
f. TXT x13862
f. TXT x13863
f. TXT x13864
f. TXT x13865
f. TXT x13866
f. TXT x13867
f. TXT x13868
f. TXT x13869
f. TXT x13870
f. TXT x13871
f. TXT x13872
f. TXT x13873
f. TXT x13874
f. TXT x13875
f. TXT x13876
f. TXT x13877
f. TXT x13878
f. TXT x13879
f. TXT x13880
f. TXT x13881
f. TXT x13882
f. TXT x13883
f. TXT x13884
f. TXT x13885
f. TXT x13886
f. TXT x13887
 A y
f. TXT x13889
f. TXT x13890
f. TXT x13891
f. TXT x13892
f. TXT x13893
f. TXT x13894
f. TXT x13895
f. TXT x13896
f. TXT x13897
f. TXT x13898
f. TXT x13899
f. TXT x13900
f. TXT x13901
f. TXT x13902
f. TXT x13903
f. TXT x13904
f. TXT x13905
f. TXT x13906
f. TXT x13907
f. TXT x13908
f. TXT x13909
f. TXT x13910
f. TXT x13911
f. TXT x13912
f. TXT x13913
f. TXT x13914
f. TXT x13915
f. TXT x13916
f. TXT x13917
f. TXT x13918
f. TXT x13919
f. TXT x13920
f. TXT x13921
f. TXT x13922
f. TXT x13923
f. TXT x13924
f. TXT x13925
f. TXT x13926
f. TXT x13927
f. TXT x13928
f. TXT x13929
f. TXT x13930
f. TXT x13931
f. TXT x13932
f. TXT x13933
f. TXT x13934
f. TXT x13935
f. TXT x13936
f. TXT x13937
f. TXT x13938
f. TXT x13939
f. TXT x13940
f. TXT x13941
f. TXT x13942
f. TXT x13943
f. TXT x13944
f. TXT x13945
f. TXT x13946
f. TXT x13947
f. TXT x13948
f. TXT x13949
f. TXT x13950
f. TXT x13951
cy.x. A x
f. TXT x13953
f. TXT x13954
f. TXT x13955
f. TXT x13956
f. TXT x13957
f. TXT x13958
f. TXT x13959
f. TXT x13960
f. TXT x13961
f. TXT x13962
f. TXT x13963
f. TXT x13964
f. TXT x13965
f. TXT x13966
f. TXT x13967
f. TXT x13968
f. TXT x13969
f. TXT x13970
f. TXT x13971
f. TXT x13972
f. TXT x13973
f. TXT x13974
f. TXT x13975
f. TXT x13976
f. TXT x13977
f. TXT x13978
f. TXT x13979
f. TXT x13980
f. TXT x13981
f. TXT x13982
f. TXT x13983
f. TXT x13984
f. TXT x13985
f. TXT x13986
f. TXT x13987
f. TXT x13988
f. TXT x13989
f. TXT x13990
f. TXT x13991
f. TXT x13992
f. TXT x13993
f. TXT x13994
f. TXT x13995
f. TXT x13996
f. TXT x13997
f. TXT x13998
f. TXT x13999
f. TXT x14000
f. TXT x14001
f. TXT x14002
f. TXT x14003
f. TXT x14004
f. TXT x14005
f. TXT x14006
f. TXT x14007
f. TXT x14008
f. TXT x14009
f. TXT x14010
f. TXT x14011
f. TXT x14012
f. TXT x14013
f. TXT x14014
f. TXT x14015

f. TXT x14017
f. TXT x14018
f. TXT x14019
f. TXT x14020
f. TXT x14021
f. TXT x14022
f. TXT x14023
f. TXT x14024
f. TXT x14025
f. TXT x14026
f. TXT x14027
f. TXT x14028
f. TXT x14029
f. TXT x14030
f. TXT x14031
f. TXT x14032
f. TXT x14033
f. TXT x14034
f. TXT x14035
f. TXT x14036
f. TXT x14037
f. TXT x14038
f. TXT x14039
f. TXT x14040
f. TXT x14041
f. TXT x14042
f. TXT x14043
f. TXT x14044
f. TXT x14045
f. TXT x14046
f. TXT x14047
f. TXT x14048
f. TXT x14049
f. TXT x14050
f. TXT x14051
f. TXT x14052
f. TXT x14053
f. TXT x14054
f. TXT x14055
f. TXT x14056
f. TXT x14057
f. TXT x14058
f. TXT x14059
f. TXT x14060
f. TXT x14061
f. TXT x14062
f. TXT x14063
f. TXT x14064
f. TXT x14065
f. TXT x14066
f. TXT x14067
f. TXT x14068
f. TXT x14069
f. TXT x14070
f. TXT x14071
f. TXT x14072
f. TXT x14073
f. TXT x14074
f. TXT x14075
f. TXT x14076
f. TXT x14077
f. TXT x14078
f. TXT x14079
 NS z0 xc0*
f. TXT x14081
f. TXT x14082
f. TXT x14083
f. TXT x14084
f. TXT x14085
f. TXT x14086
f. TXT x14087
f. TXT x14088
f. TXT x14089
f. TXT x14090
f. TXT x14091
f. TXT x14092
f. TXT x14093
f. TXT x14094
f. TXT x14095
f. TXT x14096
f. TXT x14097
f. TXT x14098
f. TXT x14099
f. TXT x14100
f. TXT x14101
f. TXT x14102
f. TXT x14103
f. TXT x14104
f. TXT x14105
f. TXT x14106
f. TXT x14107
f. TXT x14108
f. TXT x14109
f. TXT x14110
f. TXT x14111
f. TXT x14112
f. TXT x14113
f. TXT x14114
f. TXT x14115
f. TXT x14116
f. TXT x14117
f. TXT x14118
f. TXT x14119
f. TXT x14120
f. TXT x14121
f. TXT x14122
f. TXT x14123
f. TXT x14124
f. TXT x14125
f. TXT x14126
f. TXT x14127
f. TXT x14128
f. TXT x14129
f. TXT x14130
f. TXT x14131
f. TXT x14132
f. TXT x14133
f. TXT x14134
f. TXT x14135
f. TXT x14136
f. TXT x14137
f. TXT x14138
f. TXT x14139
f. TXT x14140
f. TXT x14141
f. TXT x14142
f. TXT x14143
x NS *a0z
f. TXT x14145
f. TXT x14146
f. TXT x14147
f. TXT x14148
f. TXT x14149
f. TXT x14150
f. TXT x14151
f. TXT x14152
f. TXT x14153
f. TXT x14154
f. TXT x14155
f. TXT x14156
f. TXT x14157
f. TXT x14158
f. TXT x14159
f. TXT x14160
f. TXT x14161
f. TXT x14162
f. TXT x14163
f. TXT x14164
f. TXT x14165
f. TXT x14166
f. TXT x14167
f. TXT x14168
f. TXT x14169
f. TXT x14170
f. TXT x14171
f. TXT x14172
f. TXT x14173
f. TXT x14174
f. TXT x14175
f. TXT x14176
f. TXT x14177
f. TXT x14178
f. TXT x14179
f. TXT x14180
f. TXT x14181
f. TXT x14182
f. TXT x14183
f. TXT x14184
f. TXT x14185
f. TXT x14186
f. TXT x14187
f. TXT x14188
f. TXT x14189
f. TXT x14190
f. TXT x14191
f. TXT x14192
f. TXT x14193
f. TXT x14194
f. TXT x14195
f. TXT x14196
f. TXT x14197
f. TXT x14198
f. TXT x14199
f. TXT x14200
f. TXT x14201
f. TXT x14202
f. TXT x14203
f. TXT x14204
f. TXT x14205
f. TXT x14206
f. TXT x14207
zxb NS 0c xy
f. TXT x14209
f. TXT x14210
f. TXT x14211
f. TXT x14212
f. TXT x14213
f. TXT x14214
f. TXT x14215
f. TXT x14216
f. TXT x14217
f. TXT x14218
f. TXT x14219
f. TXT x14220
f. TXT x14221
f. TXT x14222
f. TXT x14223
f. TXT x14224
f. TXT x14225
f. TXT x14226
f. TXT x14227
f. TXT x14228
f. TXT x14229
f. TXT x14230
f. TXT x14231
f. TXT x14232
f. TXT x14233
f. TXT x14234
f. TXT x14235
f. TXT x14236
f. TXT x14237
f. TXT x14238
f. TXT x14239
f. TXT x14240
f. TXT x14241
f. TXT x14242
f. TXT x14243
f. TXT x14244
f. TXT x14245
f. TXT x14246
f. TXT x14247
f. TXT x14248
f. TXT x14249
f. TXT x14250
f. TXT x14251
f. TXT x14252
f. TXT x14253
f. TXT x14254
f. TXT x14255
f. TXT x14256
f. TXT x14257
f. TXT x14258
f. TXT x14259
f. TXT x14260
f. TXT x14261
f. TXT x14262
f. TXT x14263
f. TXT x14264
f. TXT x14265
f. TXT x14266
f. TXT x14267
f. TXT x14268
f. TXT x14269
f. TXT x14270
f. TXT x14271
 NS 0-cx c *x0
f. TXT x14273
f. TXT x14274
f. TXT x14275
f. TXT x14276
f. TXT x14277
f. TXT x14278
f. TXT x14279
f. TXT x14280
f. TXT x14281
f. TXT x14282
f. TXT x14283
f. TXT x14284
f. TXT x14285
f. TXT x14286
f. TXT x14287
f. TXT x14288
f. TXT x14289
f. TXT x14290
f. TXT x14291
f. TXT x14292
f. TXT x14293
f. TXT x14294
f. TXT x14295
f. TXT x14296
f. TXT x14297
f. TXT x14298
f. TXT x14299
f. TXT x14300
f. TXT x14301
f. TXT x14302
f. TXT x14303
f. TXT x14304
f. TXT x14305
f. TXT x14306
f. TXT x14307
f. TXT x14308
f. TXT x14309
f. TXT x14310
f. TXT x14311
f. TXT x14312
f. TXT x14313
f. TXT x14314
f. TXT x14315
f. TXT x14316
f. TXT x14317
f. TXT x14318
f. TXT x14319
f. TXT x14320
f. TXT x14321
f. TXT x14322
f. TXT x14323
f. TXT x14324
f. TXT x14325
f. TXT x14326
f. TXT x14327
f. TXT x14328
f. TXT x14329
f. TXT x14330
f. TXT x14331
f. TXT x14332
f. TXT x14333
f. TXT x14334
f. TXT x14335

f. TXT x14337
f. TXT x14338
f. TXT x14339
f. TXT x14340
f. TXT x14341
f. TXT x14342
f. TXT x14343
f. TXT x14344
f. TXT x14345
f. TXT x14346
f. TXT x14347
f. TXT x14348
f. TXT x14349
f. TXT x14350
f. TXT x14351
f. TXT x14352
f. TXT x14353
f. TXT x14354
f. TXT x14355
f. TXT x14356
f. TXT x14357
f. TXT x14358
f. TXT x14359
f. TXT x14360
f. TXT x14361
f. TXT x14362
f. TXT x14363
f. TXT x14364
f. TXT x14365
f. TXT x14366
f. TXT x14367
f. TXT x14368
f. TXT x14369
f. TXT x14370
f. TXT x14371
f. TXT x14372
f. TXT x14373
f. TXT x14374
f. TXT x14375
f. TXT x14376
f. TXT x14377
f. TXT x14378
f. TXT x14379
f. TXT x14380
f. TXT x14381
f. TXT x14382
f. TXT x14383
f. TXT x14384
f. TXT x14385
f. TXT x14386
f. TXT x14387
f. TXT x14388
f. TXT x14389
f. TXT x14390
f. TXT x14391
f. TXT x14392
f. TXT x14393
f. TXT x14394
f. TXT x14395
f. TXT x14396
f. TXT x14397
f. TXT x14398
f. TXT x14399
 NS x-b0 ac x*y
f. TXT x14401
f. TXT x14402
f. TXT x14403
f. TXT x14404
f. TXT x14405
f. TXT x14406
f. TXT x14407
f. TXT x14408
f. TXT x14409
f. TXT x14410
f. TXT x14411
f. TXT x14412
f. TXT x14413
f. TXT x14414
f. TXT x14415
f. TXT x14416
f. TXT x14417
f. TXT x14418
f. TXT x14419
f. TXT x14420
f. TXT x14421
f. TXT x14422
f. TXT x14423
f. TXT x14424
f. TXT x14425
f. TXT x14426
f. TXT x14427
f. TXT x14428
f. TXT x14429
f. TXT x14430
f. TXT x14431
f. TXT x14432
f. TXT x14433
f. TXT x14434
f. TXT x14435
f. TXT x14436
f. TXT x14437
f. TXT x14438
f. TXT x14439
f. TXT x14440
f. TXT x14441
f. TXT x14442
f. TXT x14443
f. TXT x14444
f. TXT x14445
f. TXT x14446
f. TXT x14447
f. TXT x14448
f. TXT x14449
f. TXT x14450
f. TXT x14451
f. TXT x14452
f. TXT x14453
f. TXT x14454
f. TXT x14455
f. TXT x14456
f. TXT x14457
f. TXT x14458
f. TXT x14459
f. TXT x14460
f. TXT x14461
f. TXT x14462
f. TXT x14463
$TTL 2147483648
f. TXT x14465
f. TXT x14466
f. TXT x14467
f. TXT x14468
f. TXT x14469
f. TXT x14470
f. TXT x14471
f. TXT x14472
f. TXT x14473
f. TXT x14474
f. TXT x14475
f. TXT x14476
f. TXT x14477
f. TXT x14478
f. TXT x14479
f. TXT x14480
f. TXT x14481
f. TXT x14482
f. TXT x14483
f. TXT x14484
f. TXT x14485
f. TXT x14486
f. TXT x14487
f. TXT x14488
f. TXT x14489
f. TXT x14490
f. TXT x14491
f. TXT x14492
f. TXT x14493
f. TXT x14494
f. TXT x14495
f. TXT x14496
f. TXT x14497
f. TXT x14498
f. TXT x14499
f. TXT x14500
f. TXT x14501
f. TXT x14502
f. TXT x14503
f. TXT x14504
f. TXT x14505
f. TXT x14506
f. TXT x14507
f. TXT x14508
f. TXT x14509
f. TXT x14510
f. TXT x14511
f. TXT x14512
f. TXT x14513
f. TXT x14514
f. TXT x14515
f. TXT x14516
f. TXT x14517
f. TXT x14518
f. TXT x14519
f. TXT x14520
f. TXT x14521
f. TXT x14522
f. TXT x14523
f. TXT x14524
f. TXT x14525
f. TXT x14526
f. TXT x14527
$ORIGIN az.
f. TXT x14529
f. TXT x14530
f. TXT x14531
f. TXT x14532
f. TXT x14533
f. TXT x14534
f. TXT x14535
f. TXT x14536
f. TXT x14537
f. TXT x14538
f. TXT x14539
f. TXT x14540
f. TXT x14541
f. TXT x14542
f. TXT x14543
f. TXT x14544
f. TXT x14545
f. TXT x14546
f. TXT x14547
f. TXT x14548
f. TXT x14549
f. TXT x14550
f. TXT x14551
f. TXT x14552
f. TXT x14553
f. TXT x14554
f. TXT x14555
f. TXT x14556
f. TXT x14557
f. TXT x14558
f. TXT x14559
f. TXT x14560
f. TXT x14561
f. TXT x14562
f. TXT x14563
f. TXT x14564
f. TXT x14565
f. TXT x14566
f. TXT x14567
f. TXT x14568
f. TXT x14569
f. TXT x14570
f. TXT x14571
f. TXT x14572
f. TXT x14573
f. TXT x14574
f. TXT x14575
f. TXT x14576
f. TXT x14577
f. TXT x14578
f. TXT x14579
f. TXT x14580
f. TXT x14581
f. TXT x14582
f. TXT x14583
f. TXT x14584
f. TXT x14585
f. TXT x14586
f. TXT x14587
f. TXT x14588
f. TXT x14589
f. TXT x14590
f. TXT x14591
$TTL 12555550
f. TXT x14593
f. TXT x14594
f. TXT x14595
f. TXT x14596
f. TXT x14597
f. TXT x14598
f. TXT x14599
f. TXT x14600
f. TXT x14601
f. TXT x14602
f. TXT x14603
f. TXT x14604
f. TXT x14605
f. TXT x14606
f. TXT x14607
f. TXT x14608
f. TXT x14609
f. TXT x14610
f. TXT x14611
f. TXT x14612
f. TXT x14613
f. TXT x14614
f. TXT x14615
f. TXT x14616
f. TXT x14617
f. TXT x14618
f. TXT x14619
f. TXT x14620
f. TXT x14621
f. TXT x14622
f. TXT x14623
f. TXT x14624
f. TXT x14625
f. TXT x14626
f. TXT x14627
f. TXT x14628
f. TXT x14629
f. TXT x14630
f. TXT x14631
f. TXT x14632
f. TXT x14633
f. TXT x14634
f. TXT x14635
f. TXT x14636
f. TXT x14637
f. TXT x14638
f. TXT x14639
f. TXT x14640
f. TXT x14641
f. TXT x14642
f. TXT x14643
f. TXT x14644
f. TXT x14645
f. TXT x14646
f. TXT x14647
f. TXT x14648
f. TXT x14649
f. TXT x14650
f. TXT x14651
f. TXT x14652
f. TXT x14653
f. TXT x14654
f. TXT x14655
 A cy
f. TXT x14657
f. TXT x14658
f. TXT x14659
f. TXT x14660
f. TXT x14661
f. TXT x14662
f. TXT x14663
f. TXT x14664
f. TXT x14665
f. TXT x14666
f. TXT x14667
f. TXT x14668
f. TXT x14669
f. TXT x14670
f. TXT x14671
f. TXT x14672
f. TXT x14673
f. TXT x14674
f. TXT x14675
f. TXT x14676
f. TXT x14677
f. TXT x14678
f. TXT x14679
f. TXT x14680
f. TXT x14681
f. TXT x14682
f. TXT x14683
f. TXT x14684
f. TXT x14685
f. TXT x14686
f. TXT x14687
f. TXT x14688
f. TXT x14689
f. TXT x14690
f. TXT x14691
f. TXT x14692
f. TXT x14693
f. TXT x14694
f. TXT x14695
f. TXT x14696
f. TXT x14697
f. TXT x14698
f. TXT x14699
f. TXT x14700
f. TXT x14701
f. TXT x14702
f. TXT x14703
f. TXT x14704
f. TXT x14705
f. TXT x14706
f. TXT x14707
f. TXT x14708
f. TXT x14709
f. TXT x14710
f. TXT x14711
f. TXT x14712
f. TXT x14713
f. TXT x14714
f. TXT x14715
f. TXT x14716
f. TXT x14717
f. TXT x14718
f. TXT x14719
0xb. NS z-b vvvvvvvvvvvvvvvvvvvvv 0zcy
f. TXT x14721
f. TXT x14722
f. TXT x14723
f. TXT x14724
f. TXT x14725
f. TXT x14726
f. TXT x14727
f. TXT x14728
f. TXT x14729
f. TXT x14730
f. TXT x14731
f. TXT x14732
f. TXT x14733
f. TXT x14734
f. TXT x14735
f. TXT x14736
f. TXT x14737
f. TXT x14738
f. TXT x14739
f. TXT x14740
f. TXT x14741
f. TXT x14742
f. TXT x14743
f. TXT x14744
f. TXT x14745
f. TXT x14746
f. TXT x14747
f. TXT x14748
f. TXT x14749
f. TXT x14750
f. TXT x14751
f. TXT x14752
f. TXT x14753
f. TXT x14754
f. TXT x14755
f. TXT x14756
f. TXT x14757
f. TXT x14758
f. TXT x14759
f. TXT x14760
f. TXT x14761
f. TXT x14762
f. TXT x14763
f. TXT x14764
f. TXT x14765
f. TXT x14766
f. TXT x14767
f. TXT x14768
f. TXT x14769
f. TXT x14770
f. TXT x14771
f. TXT x14772
f. TXT x14773
f. TXT x14774
f. TXT x14775
f. TXT x14776
f. TXT x14777
f. TXT x14778
f. TXT x14779
f. TXT x14780
f. TXT x14781
f. TXT x14782
f. TXT x14783
@ A acx b*x
f. TXT x14785
f. TXT x14786
f. TXT x14787
f. TXT x14788
f. TXT x14789
f. TXT x14790
f. TXT x14791
f. TXT x14792
f. TXT x14793
f. TXT x14794
f. TXT x14795
f. TXT x14796
f. TXT x14797
f. TXT x14798
f. TXT x14799
f. TXT x14800
f. TXT x14801
f. TXT x14802
f. TXT x14803
f. TXT x14804
f. TXT x14805
f. TXT x14806
f. TXT x14807
f. TXT x14808
f. TXT x14809
f. TXT x14810
f. TXT x14811
f. TXT x14812
f. TXT x14813
f. TXT x14814
f. TXT x14815
f. TXT x14816
f. TXT x14817
f. TXT x14818
f. TXT x14819
f. TXT x14820
f. TXT x14821
f. TXT x14822
f. TXT x14823
f. TXT x14824
f. TXT x14825
f. TXT x14826
f. TXT x14827
f. TXT x14828
f. TXT x14829
f. TXT x14830
f. TXT x14831
f. TXT x14832
f. TXT x14833
f. TXT x14834
f. TXT x14835
f. TXT x14836
f. TXT x14837
f. TXT x14838
f. TXT x14839
f. TXT x14840
f. TXT x14841
f. TXT x14842
f. TXT x14843
f. TXT x14844
f. TXT x14845
f. TXT x14846
f. TXT x14847
 TXT c-0 b
f. TXT x14849
f. TXT x14850
f. TXT x14851
f. TXT x14852
f. TXT x14853
f. TXT x14854
f. TXT x14855
f. TXT x14856
f. TXT x14857
f. TXT x14858
f. TXT x14859
f. TXT x14860
f. TXT x14861
f. TXT x14862
f. TXT x14863
f. TXT x14864
f. TXT x14865
f. TXT x14866
f. TXT x14867
f. TXT x14868
f. TXT x14869
f. TXT x14870
f. TXT x14871
f. TXT x14872
f. TXT x14873
f. TXT x14874
f. TXT x14875
f. TXT x14876
f. TXT x14877
f. TXT x14878
f. TXT x14879
f. TXT x14880
f. TXT x14881
f. TXT x14882
f. TXT x14883
f. TXT x14884
f. TXT x14885
f. TXT x14886
f. TXT x14887
f. TXT x14888
f. TXT x14889
f. TXT x14890
f. TXT x14891
f. TXT x14892
f. TXT x14893
f. TXT x14894
f. TXT x14895
f. TXT x14896
f. TXT x14897
f. TXT x14898
f. TXT x14899
f. TXT x14900
f. TXT x14901
f. TXT x14902
f. TXT x14903
f. TXT x14904
f. TXT x14905
f. TXT x14906
f. TXT x14907
f. TXT x14908
f. TXT x14909
f. TXT x14910
f. TXT x14911
 TXT xa* zxc-
f. TXT x14913
f. TXT x14914
f. TXT x14915
f. TXT x14916
f. TXT x14917
f. TXT x14918
f. TXT x14919
f. TXT x14920
f. TXT x14921
f. TXT x14922
f. TXT x14923
f. TXT x14924
f. TXT x14925
f. TXT x14926
f. TXT x14927
f. TXT x14928
f. TXT x14929
f. TXT x14930
f. TXT x14931
f. TXT x14932
f. TXT x14933
f. TXT x14934
f. TXT x14935
f. TXT x14936
f. TXT x14937
f. TXT x14938
f. TXT x14939
f. TXT x14940
f. TXT x14941
f. TXT x14942
f. TXT x14943
f. TXT x14944
f. TXT x14945
f. TXT x14946
f. TXT x14947
f. TXT x14948
f. TXT x14949
f. TXT x14950
f. TXT x14951
f. TXT x14952
f. TXT x14953
f. TXT x14954
f. TXT x14955
f. TXT x14956
f. TXT x14957
f. TXT x14958
f. TXT x14959
f. TXT x14960
f. TXT x14961
f. TXT x14962
f. TXT x14963
f. TXT x14964
f. TXT x14965
f. TXT x14966
f. TXT x14967
f. TXT x14968
f. TXT x14969
f. TXT x14970
f. TXT x14971
f. TXT x14972
f. TXT x14973
f. TXT x14974
f. TXT x14975
$ORIGIN -x-.
f. TXT x14977
f. TXT x14978
f. TXT x14979
f. TXT x14980
f. TXT x14981
f. TXT x14982
f. TXT x14983
f. TXT x14984
f. TXT x14985
f. TXT x14986
f. TXT x14987
f. TXT x14988
f. TXT x14989
f. TXT x14990
f. TXT x14991
f. TXT x14992
f. TXT x14993
f. TXT x14994
f. TXT x14995
f. TXT x14996
f. TXT x14997
f. TXT x14998
f. TXT x14999
f. TXT x15000
f. TXT x15001
f. TXT x15002
f. TXT x15003
f. TXT x15004
f. TXT x15005
f. TXT x15006
f. TXT x15007
f. TXT x15008
f. TXT x15009
f. TXT x15010
f. TXT x15011
f. TXT x15012
f. TXT x15013
f. TXT x15014
f. TXT x15015
f. TXT x15016
f. TXT x15017
f. TXT x15018
f. TXT x15019
f. TXT x15020
f. TXT x15021
f. TXT x15022
f. TXT x15023
f. TXT x15024
f. TXT x15025
f. TXT x15026
f. TXT x15027
f. TXT x15028
f. TXT x15029
f. TXT x15030
f. TXT x15031
f. TXT x15032
f. TXT x15033
f. TXT x15034
f. TXT x15035
f. TXT x15036
f. TXT x15037
f. TXT x15038
f. TXT x15039
@ TXT x xy 0aay
f. TXT x15041
f. TXT x15042
f. TXT x15043
f. TXT x15044
f. TXT x15045
f. TXT x15046
f. TXT x15047
f. TXT x15048
f. TXT x15049
f. TXT x15050
f. TXT x15051
f. TXT x15052
f. TXT x15053
f. TXT x15054
f. TXT x15055
f. TXT x15056
f. TXT x15057
f. TXT x15058
f. TXT x15059
f. TXT x15060
f. TXT x15061
f. TXT x15062
f. TXT x15063
f. TXT x15064
f. TXT x15065
f. TXT x15066
f. TXT x15067
f. TXT x15068
f. TXT x15069
f. TXT x15070
f. TXT x15071
f. TXT x15072
f. TXT x15073
f. TXT x15074
f. TXT x15075
f. TXT x15076
f. TXT x15077
f. TXT x15078
f. TXT x15079
f. TXT x15080
f. TXT x15081
f. TXT x15082
f. TXT x15083
f. TXT x15084
f. TXT x15085
f. TXT x15086
f. TXT x15087
f. TXT x15088
f. TXT x15089
f. TXT x15090
f. TXT x15091
f. TXT x15092
f. TXT x15093
f. TXT x15094
f. TXT x15095
f. TXT x15096
f. TXT x15097
f. TXT x15098
f. TXT x15099
f. TXT x15100
f. TXT x15101
f. TXT x15102
f. TXT x15103
@ A - 0y-a
f. TXT x15105
f. TXT x15106
f. TXT x15107
f. TXT x15108
f. TXT x15109
f. TXT x15110
f. TXT x15111
f. TXT x15112
f. TXT x15113
f. TXT x15114
f. TXT x15115
f. TXT x15116
f. TXT x15117
f. TXT x15118
f. TXT x15119
f. TXT x15120
f. TXT x15121
f. TXT x15122
f. TXT x15123
f. TXT x15124
f. TXT x15125
f. TXT x15126
f. TXT x15127
f. TXT x15128
f. TXT x15129
f. TXT x15130
f. TXT x15131
f. TXT x15132
f. TXT x15133
f. TXT x15134
f. TXT x15135
f. TXT x15136
f. TXT x15137
f. TXT x15138
f. TXT x15139
f. TXT x15140
f. TXT x15141
f. TXT x15142
f. TXT x15143
f. TXT x15144
f. TXT x15145
f. TXT x15146
f. TXT x15147
f. TXT x15148
f. TXT x15149
f. TXT x15150
f. TXT x15151
f. TXT x15152
f. TXT x15153
f. TXT x15154
f. TXT x15155
f. TXT x15156
f. TXT x15157
f. TXT x15158
f. TXT x15159
f. TXT x15160
f. TXT x15161
f. TXT x15162
f. TXT x15163
f. TXT x15164
f. TXT x15165
f. TXT x15166
f. TXT x15167
@ TXT xxa
f. TXT x15169
f. TXT x15170
f. TXT x15171
f. TXT x15172
f. TXT x15173
f. TXT x15174
f. TXT x15175
f. TXT x15176
f. TXT x15177
f. TXT x15178
f. TXT x15179
f. TXT x15180
f. TXT x15181
f. TXT x15182
f. TXT x15183
f. TXT x15184
f. TXT x15185
f. TXT x15186
f. TXT x15187
f. TXT x15188
f. TXT x15189
f. TXT x15190
f. TXT x15191
f. TXT x15192
f. TXT x15193
f. TXT x15194
f. TXT x15195
f. TXT x15196
f. TXT x15197
f. TXT x15198
f. TXT x15199
f. TXT x15200
f. TXT x15201
f. TXT x15202
f. TXT x15203
f. TXT x15204
f. TXT x15205
f. TXT x15206
f. TXT x15207
f. TXT x15208
f. TXT x15209
f. TXT x15210
f. TXT x15211
f. TXT x15212
f. TXT x15213
f. TXT x15214
f. TXT x15215
f. TXT x15216
f. TXT x15217
f. TXT x15218
f. TXT x15219
f. TXT x15220
f. TXT x15221
f. TXT x15222
f. TXT x15223
f. TXT x15224
f. TXT x15225
f. TXT x15226
f. TXT x15227
f. TXT x15228
f. TXT x15229
f. TXT x15230
f. TXT x15231
@ A * a*0a a
f. TXT x15233
f. TXT x15234
f. TXT x15235
f. TXT x15236
f. TXT x15237
f. TXT x15238
f. TXT x15239
f. TXT x15240
f. TXT x15241
f. TXT x15242
f. TXT x15243
f. TXT x15244
f. TXT x15245
f. TXT x15246
f. TXT x15247
f. TXT x15248
f. TXT x15249
f. TXT x15250
f. TXT x15251
f. TXT x15252
f. TXT x15253
f. TXT x15254
f. TXT x15255
f. TXT x15256
f. TXT x15257
f. TXT x15258
f. TXT x15259
f. TXT x15260
f. TXT x15261
f. TXT x15262
f. TXT x15263
f. TXT x15264
f. TXT x15265
f. TXT x15266
f. TXT x15267
f. TXT x15268
f. TXT x15269
f. TXT x15270
f. TXT x15271
f. TXT x15272
f. TXT x15273
f. TXT x15274
f. TXT x15275
f. TXT x15276
f. TXT x15277
f. TXT x15278
f. TXT x15279
f. TXT x15280
f. TXT x15281
f. TXT x15282
f. TXT x15283
f. TXT x15284
f. TXT x15285
f. TXT x15286
f. TXT x15287
f. TXT x15288
f. TXT x15289
f. TXT x15290
f. TXT x15291
f. TXT x15292
f. TXT x15293
f. TXT x15294
f. TXT x15295
$ORIGIN ax.
f. TXT x15297
f. TXT x15298
f. TXT x15299
f. TXT x15300
f. TXT x15301
f. TXT x15302
f. TXT x15303
f. TXT x15304
f. TXT x15305
f. TXT x15306
f. TXT x15307
f. TXT x15308
f. TXT x15309
f. TXT x15310
f. TXT x15311
f. TXT x15312
f. TXT x15313
f. TXT x15314
f. TXT x15315
f. TXT x15316
f. TXT x15317
f. TXT x15318
f. TXT x15319
f. TXT x15320
f. TXT x15321
f. TXT x15322
f. TXT x15323
f. TXT x15324
f. TXT x15325
f. TXT x15326
f. TXT x15327
f. TXT x15328
f. TXT x15329
f. TXT x15330
f. TXT x15331
f. TXT x15332
f. TXT x15333
f. TXT x15334
f. TXT x15335
f. TXT x15336
f. TXT x15337
f. TXT x15338
f. TXT x15339
f. TXT x15340
f. TXT x15341
f. TXT x15342
f. TXT x15343
f. TXT x15344
f. TXT x15345
f. TXT x15346
f. TXT x15347
f. TXT x15348
f. TXT x15349
f. TXT x15350
f. TXT x15351
f. TXT x15352
f. TXT x15353
f. TXT x15354
f. TXT x15355
f. TXT x15356
f. TXT x15357
f. TXT x15358
f. TXT x15359
; xy
f. TXT x15361
f. TXT x15362
f. TXT x15363
f. TXT x15364
f. TXT x15365
f. TXT x15366
f. TXT x15367
f. TXT x15368
f. TXT x15369
f. TXT x15370
f. TXT x15371
f. TXT x15372
f. TXT x15373
f. TXT x15374
f. TXT x15375
f. TXT x15376
f. TXT x15377
f. TXT x15378
f. TXT x15379
f. TXT x15380
f. TXT x15381
f. TXT x15382
f. TXT x15383
f. TXT x15384
f. TXT x15385
f. TXT x15386
f. TXT x15387
f. TXT x15388
f. TXT x15389
f. TXT x15390
f. TXT x15391
f. TXT x15392
f. TXT x15393
f. TXT x15394
f. TXT x15395
f. TXT x15396
f. TXT x15397
f. TXT x15398
f. TXT x15399
f. TXT x15400
f. TXT x15401
f. TXT x15402
f. TXT x15403
f. TXT x15404
f. TXT x15405
f. TXT x15406
f. TXT x15407
f. TXT x15408
f. TXT x15409
f. TXT x15410
f. TXT x15411
f. TXT x15412
f. TXT x15413
f. TXT x15414
f. TXT x15415
f. TXT x15416
f. TXT x15417
f. TXT x15418
f. TXT x15419
f. TXT x15420
f. TXT x15421
f. TXT x15422
f. TXT x15423
$TTL 4294967295
f. TXT x15425
f. TXT x15426
f. TXT x15427
f. TXT x15428
f. TXT x15429
f. TXT x15430
f. TXT x15431
f. TXT x15432
f. TXT x15433
f. TXT x15434
f. TXT x15435
f. TXT x15436
f. TXT x15437
f. TXT x15438
f. TXT x15439
f. TXT x15440
f. TXT x15441
f. TXT x15442
f. TXT x15443
f. TXT x15444
f. TXT x15445
f. TXT x15446
f. TXT x15447
f. TXT x15448
f. TXT x15449
f. TXT x15450
f. TXT x15451
f. TXT x15452
f. TXT x15453
f. TXT x15454
f. TXT x15455
f. TXT x15456
f. TXT x15457
f. TXT x15458
f. TXT x15459
f. TXT x15460
f. TXT x15461
f. TXT x15462
f. TXT x15463
f. TXT x15464
f. TXT x15465
f. TXT x15466
f. TXT x15467
f. TXT x15468
f. TXT x15469
f. TXT x15470
f. TXT x15471
f. TXT x15472
f. TXT x15473
f. TXT x15474
f. TXT x15475
f. TXT x15476
f. TXT x15477
f. TXT x15478
f. TXT x15479
f. TXT x15480
f. TXT x15481
f. TXT x15482
f. TXT x15483
f. TXT x15484
f. TXT x15485
f. TXT x15486
f. TXT x15487
 A -* b0a
f. TXT x15489
f. TXT x15490
f. TXT x15491
f. TXT x15492
f. TXT x15493
f. TXT x15494
f. TXT x15495
f. TXT x15496
f. TXT x15497
f. TXT x15498
f. TXT x15499
f. TXT x15500
f. TXT x15501
f. TXT x15502
f. TXT x15503
f. TXT x15504
f. TXT x15505
f. TXT x15506
f. TXT x15507
f. TXT x15508
f. TXT x15509
f. TXT x15510
f. TXT x15511
f. TXT x15512
f. TXT x15513
f. TXT x15514
f. TXT x15515
f. TXT x15516
f. TXT x15517
f. TXT x15518
f. TXT x15519
f. TXT x15520
f. TXT x15521
f. TXT x15522
f. TXT x15523
f. TXT x15524
f. TXT x15525
f. TXT x15526
f. TXT x15527
f. TXT x15528
f. TXT x15529
f. TXT x15530
f. TXT x15531
f. TXT x15532
f. TXT x15533
f. TXT x15534
f. TXT x15535
f. TXT x15536
f. TXT x15537
f. TXT x15538
f. TXT x15539
f. TXT x15540
f. TXT x15541
f. TXT x15542
f. TXT x15543
f. TXT x15544
f. TXT x15545
f. TXT x15546
f. TXT x15547
f. TXT x15548
f. TXT x15549
f. TXT x15550
f. TXT x15551
 A y cac bz
f. TXT x15553
f. TXT x15554
f. TXT x15555
f. TXT x15556
f. TXT x15557
f. TXT x15558
f. TXT x15559
f. TXT x15560
f. TXT x15561
f. TXT x15562
f. TXT x15563
f. TXT x15564
f. TXT x15565
f. TXT x15566
f. TXT x15567
f. TXT x15568
f. TXT x15569
f. TXT x15570
f. TXT x15571
f. TXT x15572
f. TXT x15573
f. TXT x15574
f. TXT x15575
f. TXT x15576
f. TXT x15577
f. TXT x15578
f. TXT x15579
f. TXT x15580
f. TXT x15581
f. TXT x15582
f. TXT x15583
f. TXT x15584
f. TXT x15585
f. TXT x15586
f. TXT x15587
f. TXT x15588
f. TXT x15589
f. TXT x15590
f. TXT x15591
f. TXT x15592
f. TXT x15593
f. TXT x15594
f. TXT x15595
f. TXT x15596
f. TXT x15597
f. TXT x15598
f. TXT x15599
f. TXT x15600
f. TXT x15601
f. TXT x15602
f. TXT x15603
f. TXT x15604
f. TXT x15605
f. TXT x15606
f. TXT x15607
f. TXT x15608
f. TXT x15609
f. TXT x15610
f. TXT x15611
f. TXT x15612
f. TXT x15613
f. TXT x15614
f. TXT x15615
xxza TXT -* -cc
f. TXT x15617
f. TXT x15618
f. TXT x15619
f. TXT x15620
f. TXT x15621
f. TXT x15622
f. TXT x15623
f. TXT x15624
f. TXT x15625
f. TXT x15626
f. TXT x15627
f. TXT x15628
f. TXT x15629
f. TXT x15630
f. TXT x15631
f. TXT x15632
f. TXT x15633
f. TXT x15634
f. TXT x15635
f. TXT x15636
f. TXT x15637
f. TXT x15638
f. TXT x15639
f. TXT x15640
f. TXT x15641
f. TXT x15642
f. TXT x15643
f. TXT x15644
f. TXT x15645
f. TXT x15646
f. TXT x15647
f. TXT x15648
f. TXT x15649
f. TXT x15650
f. TXT x15651
f. TXT x15652
f. TXT x15653
f. TXT x15654
f. TXT x15655
f. TXT x15656
f. TXT x15657
f. TXT x15658
f. TXT x15659
f. TXT x15660
f. TXT x15661
f. TXT x15662
f. TXT x15663
f. TXT x15664
f. TXT x15665
f. TXT x15666
f. TXT x15667
f. TXT x15668
f. TXT x15669
f. TXT x15670
f. TXT x15671
f. TXT x15672
f. TXT x15673
f. TXT x15674
f. TXT x15675
f. TXT x15676
f. TXT x15677
f. TXT x15678
f. TXT x15679
; ycy0
f. TXT x15681
f. TXT x15682
f. TXT x15683
f. TXT x15684
f. TXT x15685
f. TXT x15686
f. TXT x15687
f. TXT x15688
f. TXT x15689
f. TXT x15690
f. TXT x15691
f. TXT x15692
f. TXT x15693
f. TXT x15694
f. TXT x15695
f. TXT x15696
f. TXT x15697
f. TXT x15698
f. TXT x15699
f. TXT x15700
f. TXT x15701
f. TXT x15702
f. TXT x15703
f. TXT x15704
f. TXT x15705
f. TXT x15706
f. TXT x15707
f. TXT x15708
f. TXT x15709
f. TXT x15710
f. TXT x15711
f. TXT x15712
f. TXT x15713
f. TXT x15714
f. TXT x15715
f. TXT x15716
f. TXT x15717
f. TXT x15718
f. TXT x15719
f. TXT x15720
f. TXT x15721
f. TXT x15722
f. TXT x15723
f. TXT x15724
f. TXT x15725
f. TXT x15726
f. TXT x15727
f. TXT x15728
f. TXT x15729
f. TXT x15730
f. TXT x15731
f. TXT x15732
f. TXT x15733
f. TXT x15734
f. TXT x15735
f. TXT x15736
f. TXT x15737
f. TXT x15738
f. TXT x15739
f. TXT x15740
f. TXT x15741
f. TXT x15742
f. TXT x15743
acyz TXT by c
f. TXT x15745
f. TXT x15746
f. TXT x15747
f. TXT x15748
f. TXT x15749
f. TXT x15750
f. TXT x15751
f. TXT x15752
f. TXT x15753
f. TXT x15754
f. TXT x15755
f. TXT x15756
f. TXT x15757
f. TXT x15758
f. TXT x15759
f. TXT x15760
f. TXT x15761
f. TXT x15762
f. TXT x15763
f. TXT x15764
f. TXT x15765
f. TXT x15766
f. TXT x15767
f. TXT x15768
f. TXT x15769
f. TXT x15770
f. TXT x15771
f. TXT x15772
f. TXT x15773
f. TXT x15774
f. TXT x15775
f. TXT x15776
f. TXT x15777
f. TXT x15778
f. TXT x15779
f. TXT x15780
f. TXT x15781
f. TXT x15782
f. TXT x15783
f. TXT x15784
f. TXT x15785
f. TXT x15786
f. TXT x15787
f. TXT x15788
f. TXT x15789
f. TXT x15790
f. TXT x15791
f. TXT x15792
f. TXT x15793
f. TXT x15794
f. TXT x15795
f. TXT x15796
f. TXT x15797
f. TXT x15798
f. TXT x15799
f. TXT x15800
f. TXT x15801
f. TXT x15802
f. TXT x15803
f. TXT x15804
f. TXT x15805
f. TXT x15806
f. TXT x15807
$TTL 23624
f. TXT x15809
f. TXT x15810
f. TXT x15811
f. TXT x15812
f. TXT x15813
f. TXT x15814
f. TXT x15815
f. TXT x15816
f. TXT x15817
f. TXT x15818
f. TXT x15819
f. TXT x15820
f. TXT x15821
f. TXT x15822
f. TXT x15823
f. TXT x15824
f. TXT x15825
f. TXT x15826
f. TXT x15827
f. TXT x15828
f. TXT x15829
f. TXT x15830
f. TXT x15831
f. TXT x15832
f. TXT x15833
f. TXT x15834
f. TXT x15835
f. TXT x15836
f. TXT x15837
f. TXT x15838
f. TXT x15839
f. TXT x15840
f. TXT x15841
f. TXT x15842
f. TXT x15843
f. TXT x15844
f. TXT x15845
f. TXT x15846
f. TXT x15847
f. TXT x15848
f. TXT x15849
f. TXT x15850
f. TXT x15851
f. TXT x15852
f. TXT x15853
f. TXT x15854
f. TXT x15855
f. TXT x15856
f. TXT x15857
f. TXT x15858
f. TXT x15859
f. TXT x15860
f. TXT x15861
f. TXT x15862
f. TXT x15863
f. TXT x15864
f. TXT x15865
f. TXT x15866
f. TXT x15867
f. TXT x15868
f. TXT x15869
f. TXT x15870
f. TXT x15871
$TTL 132058359
f. TXT x15873
f. TXT x15874
f. TXT x15875
f. TXT x15876
f. TXT x15877
f. TXT x15878
f. TXT x15879
f. TXT x15880
f. TXT x15881
f. TXT x15882
f. TXT x15883
f. TXT x15884
f. TXT x15885
f. TXT x15886
f. TXT x15887
f. TXT x15888
f. TXT x15889
f. TXT x15890
f. TXT x15891
f. TXT x15892
f. TXT x15893
f. TXT x15894
f. TXT x15895
f. TXT x15896
f. TXT x15897
f. TXT x15898
f. TXT x15899
f. TXT x15900
f. TXT x15901
f. TXT x15902
f. TXT x15903
f. TXT x15904
f. TXT x15905
f. TXT x15906
f. TXT x15907
f. TXT x15908
f. TXT x15909
f. TXT x15910
f. TXT x15911
f. TXT x15912
f. TXT x15913
f. TXT x15914
f. TXT x15915
f. TXT x15916
f. TXT x15917
f. TXT x15918
f. TXT x15919
f. TXT x15920
f. TXT x15921
f. TXT x15922
f. TXT x15923
f. TXT x15924
f. TXT x15925
f. TXT x15926
f. TXT x15927
f. TXT x15928
f. TXT x15929
f. TXT x15930
f. TXT x15931
f. TXT x15932
f. TXT x15933
f. TXT x15934
f. TXT x15935
$TTL 170316602
f. TXT x15937
f. TXT x15938
f. TXT x15939
f. TXT x15940
f. TXT x15941
f. TXT x15942
f. TXT x15943
f. TXT x15944
f. TXT x15945
f. TXT x15946
f. TXT x15947
f. TXT x15948
f. TXT x15949
f. TXT x15950
f. TXT x15951
f. TXT x15952
f. TXT x15953
f. TXT x15954
f. TXT x15955
f. TXT x15956
f. TXT x15957
f. TXT x15958
f. TXT x15959
f. TXT x15960
f. TXT x15961
f. TXT x15962
f. TXT x15963
f. TXT x15964
f. TXT x15965
f. TXT x15966
f. TXT x15967
f. TXT x15968
f. TXT x15969
f. TXT x15970
f. TXT x15971
f. TXT x15972
f. TXT x15973
f. TXT x15974
f. TXT x15975
f. TXT x15976
f. TXT x15977
f. TXT x15978
f. TXT x15979
f. TXT x15980
f. TXT x15981
f. TXT x15982
f. TXT x15983
f. TXT x15984
f. TXT x15985
f. TXT x15986
f. TXT x15987
f. TXT x15988
f. TXT x15989
f. TXT x15990
f. TXT x15991
f. TXT x15992
f. TXT x15993
f. TXT x15994
f. TXT x15995
f. TXT x15996
f. TXT x15997
f. TXT x15998
f. TXT x15999
c.bcx. TXT z
f. TXT x16001
f. TXT x16002
f. TXT x16003
f. TXT x16004
f. TXT x16005
f. TXT x16006
f. TXT x16007
f. TXT x16008
f. TXT x16009
f. TXT x16010
f. TXT x16011
f. TXT x16012
f. TXT x16013
f. TXT x16014
f. TXT x16015
f. TXT x16016
f. TXT x16017
f. TXT x16018
f. TXT x16019
f. TXT x16020
f. TXT x16021
f. TXT x16022
f. TXT x16023
f. TXT x16024
f. TXT x16025
f. TXT x16026
f. TXT x16027
f. TXT x16028
f. TXT x16029
f. TXT x16030
f. TXT x16031
f. TXT x16032
f. TXT x16033
f. TXT x16034
f. TXT x16035
f. TXT x16036
f. TXT x16037
f. TXT x16038
f. TXT x16039
f. TXT x16040
f. TXT x16041
f. TXT x16042
f. TXT x16043
f. TXT x16044
f. TXT x16045
f. TXT x16046
f. TXT x16047
f. TXT x16048
f. TXT x16049
f. TXT x16050
f. TXT x16051
f. TXT x16052
f. TXT x16053
f. TXT x16054
f. TXT x16055
f. TXT x16056
f. TXT x16057
f. TXT x16058
f. TXT x16059
f. TXT x16060
f. TXT x16061
f. TXT x16062
f. TXT x16063
$ORIGIN 0xc.*y.
f. TXT x16065
f. TXT x16066
f. TXT x16067
f. TXT x16068
f. TXT x16069
f. TXT x16070
f. TXT x16071
f. TXT x16072
f. TXT x16073
f. TXT x16074
f. TXT x16075
f. TXT x16076
f. TXT x16077
f. TXT x16078
f. TXT x16079
f. TXT x16080
f. TXT x16081
f. TXT x16082
f. TXT x16083
f. TXT x16084
f. TXT x16085
f. TXT x16086
f. TXT x16087
f. TXT x16088
f. TXT x16089
f. TXT x16090
f. TXT x16091
f. TXT x16092
f. TXT x16093
f. TXT x16094
f. TXT x16095
f. TXT x16096
f. TXT x16097
f. TXT x16098
f. TXT x16099
f. TXT x16100
f. TXT x16101
f. TXT x16102
f. TXT x16103
f. TXT x16104
f. TXT x16105
f. TXT x16106
f. TXT x16107
f. TXT x16108
f. TXT x16109
f. TXT x16110
f. TXT x16111
f. TXT x16112
f. TXT x16113
f. TXT x16114
f. TXT x16115
f. TXT x16116
f. TXT x16117
f. TXT x16118
f. TXT x16119
f. TXT x16120
f. TXT x16121
f. TXT x16122
f. TXT x16123
f. TXT x16124
f. TXT x16125
f. TXT x16126
f. TXT x16127
 A -
f. TXT x16129
f. TXT x16130
f. TXT x16131
f. TXT x16132
f. TXT x16133
f. TXT x16134
f. TXT x16135
f. TXT x16136
f. TXT x16137
f. TXT x16138
f. TXT x16139
f. TXT x16140
f. TXT x16141
f. TXT x16142
f. TXT x16143
f. TXT x16144
f. TXT x16145
f. TXT x16146
f. TXT x16147
f. TXT x16148
f. TXT x16149
f. TXT x16150
f. TXT x16151
f. TXT x16152
f. TXT x16153
f. TXT x16154
f. TXT x16155
f. TXT x16156
f. TXT x16157
f. TXT x16158
f. TXT x16159
f. TXT x16160
f. TXT x16161
f. TXT x16162
f. TXT x16163
f. TXT x16164
f. TXT x16165
f. TXT x16166
f. TXT x16167
f. TXT x16168
f. TXT x16169
f. TXT x16170
f. TXT x16171
f. TXT x16172
f. TXT x16173
f. TXT x16174
f. TXT x16175
f. TXT x16176
f. TXT x16177
f. TXT x16178
f. TXT x16179
f. TXT x16180
f. TXT x16181
f. TXT x16182
f. TXT x16183
f. TXT x16184
f. TXT x16185
f. TXT x16186
f. TXT x16187
f. TXT x16188
f. TXT x16189
f. TXT x16190
f. TXT x16191
* NS *y*
f. TXT x16193
f. TXT x16194
f. TXT x16195
f. TXT x16196
f. TXT x16197
f. TXT x16198
f. TXT x16199
f. TXT x16200
f. TXT x16201
f. TXT x16202
f. TXT x16203
f. TXT x16204
f. TXT x16205
f. TXT x16206
f. TXT x16207
f. TXT x16208
f. TXT x16209
f. TXT x16210
f. TXT x16211
f. TXT x16212
f. TXT x16213
f. TXT x16214
f. TXT x16215
f. TXT x16216
f. TXT x16217
f. TXT x16218
f. TXT x16219
f. TXT x16220
f. TXT x16221
f. TXT x16222
f. TXT x16223
f. TXT x16224
f. TXT x16225
f. TXT x16226
f. TXT x16227
f. TXT x16228
f. TXT x16229
f. TXT x16230
f. TXT x16231
f. TXT x16232
f. TXT x16233
f. TXT x16234
f. TXT x16235
f. TXT x16236
f. TXT x16237
f. TXT x16238
f. TXT x16239
f. TXT x16240
f. TXT x16241
f. TXT x16242
f. TXT x16243
f. TXT x16244
f. TXT x16245
f. TXT x16246
f. TXT x16247
f. TXT x16248
f. TXT x16249
f. TXT x16250
f. TXT x16251
f. TXT x16252
f. TXT x16253
f. TXT x16254
f. TXT x16255
$ORIGIN x0--.b.
f. TXT x16257
f. TXT x16258
f. TXT x16259
f. TXT x16260
f. TXT x16261
f. TXT x16262
f. TXT x16263
f. TXT x16264
f. TXT x16265
f. TXT x16266
f. TXT x16267
f. TXT x16268
f. TXT x16269
f. TXT x16270
f. TXT x16271
f. TXT x16272
f. TXT x16273
f. TXT x16274
f. TXT x16275
f. TXT x16276
f. TXT x16277
f. TXT x16278
f. TXT x16279
f. TXT x16280
f. TXT x16281
f. TXT x16282
f. TXT x16283
f. TXT x16284
f. TXT x16285
f. TXT x16286
f. TXT x16287
f. TXT x16288
f. TXT x16289
f. TXT x16290
f. TXT x16291
f. TXT x16292
f. TXT x16293
f. TXT x16294
f. TXT x16295
f. TXT x16296
f. TXT x16297
f. TXT x16298
f. TXT x16299
f. TXT x16300
f. TXT x16301
f. TXT x16302
f. TXT x16303
f. TXT x16304
f. TXT x16305
f. TXT x16306
f. TXT x16307
f. TXT x16308
f. TXT x16309
f. TXT x16310
f. TXT x16311
f. TXT x16312
f. TXT x16313
f. TXT x16314
f. TXT x16315
f. TXT x16316
f. TXT x16317
f. TXT x16318
f. TXT x16319
@ A 0c byz
f. TXT x16321
f. TXT x16322
f. TXT x16323
f. TXT x16324
f. TXT x16325
f. TXT x16326
f. TXT x16327
f. TXT x16328
f. TXT x16329
f. TXT x16330
f. TXT x16331
f. TXT x16332
f. TXT x16333
f. TXT x16334
f. TXT x16335
f. TXT x16336
f. TXT x16337
f. TXT x16338
f. TXT x16339
f. TXT x16340
f. TXT x16341
f. TXT x16342
f. TXT x16343
f. TXT x16344
f. TXT x16345
f. TXT x16346
f. TXT x16347
f. TXT x16348
f. TXT x16349
f. TXT x16350
f. TXT x16351
f. TXT x16352
f. TXT x16353
f. TXT x16354
f. TXT x16355
f. TXT x16356
f. TXT x16357
f. TXT x16358
f. TXT x16359
f. TXT x16360
f. TXT x16361
f. TXT x16362
f. TXT x16363
f. TXT x16364
f. TXT x16365
f. TXT x16366
f. TXT x16367
f. TXT x16368
f. TXT x16369
f. TXT x16370
f. TXT x16371
f. TXT x16372
f. TXT x16373
f. TXT x16374
f. TXT x16375
f. TXT x16376
f. TXT x16377
f. TXT x16378
f. TXT x16379
f. TXT x16380
f. TXT x16381
f. TXT x16382
f. TXT x16383
$ORIGIN x.
f. TXT x16385
f. TXT x16386
f. TXT x16387
f. TXT x16388
f. TXT x16389
f. TXT x16390
f. TXT x16391
f. TXT x16392
f. TXT x16393
f. TXT x16394
f. TXT x16395
f. TXT x16396
f. TXT x16397
f. TXT x16398
f. TXT x16399
f. TXT x16400
f. TXT x16401
f. TXT x16402
f. TXT x16403
f. TXT x16404
f. TXT x16405
f. TXT x16406
f. TXT x16407
f. TXT x16408
f. TXT x16409
f. TXT x16410
f. TXT x16411
f. TXT x16412
f. TXT x16413
f. TXT x16414
f. TXT x16415
f. TXT x16416
f. TXT x16417
f. TXT x16418
f. TXT x16419
f. TXT x16420
f. TXT x16421
f. TXT x16422
f. TXT x16423
f. TXT x16424
f. TXT x16425
f. TXT x16426
f. TXT x16427
f. TXT x16428
f. TXT x16429
f. TXT x16430
f. TXT x16431
f. TXT x16432
f. TXT x16433
f. TXT x16434
f. TXT x16435
f. TXT x16436
f. TXT x16437
f. TXT x16438
f. TXT x16439
f. TXT x16440
f. TXT x16441
f. TXT x16442
f. TXT x16443
f. TXT x16444
f. TXT x16445
f. TXT x16446
f. TXT x16447
$TTL 1647330766
f. TXT x16449
f. TXT x16450
f. TXT x16451
f. TXT x16452
f. TXT x16453
f. TXT x16454
f. TXT x16455
f. TXT x16456
f. TXT x16457
f. TXT x16458
f. TXT x16459
f. TXT x16460
f. TXT x16461
f. TXT x16462
f. TXT x16463
f. TXT x16464
f. TXT x16465
f. TXT x16466
f. TXT x16467
f. TXT x16468
f. TXT x16469
f. TXT x16470
f. TXT x16471
f. TXT x16472
f. TXT x16473
f. TXT x16474
f. TXT x16475
f. TXT x16476
f. TXT x16477
f. TXT x16478
f. TXT x16479
f. TXT x16480
f. TXT x16481
f. TXT x16482
f. TXT x16483
f. TXT x16484
f. TXT x16485
f. TXT x16486
f. TXT x16487
f. TXT x16488
f. TXT x16489
f. TXT x16490
f. TXT x16491
f. TXT x16492
f. TXT x16493
f. TXT x16494
f. TXT x16495
f. TXT x16496
f. TXT x16497
f. TXT x16498
f. TXT x16499
f. TXT x16500
f. TXT x16501
f. TXT x16502
f. TXT x16503
f. TXT x16504
f. TXT x16505
f. TXT x16506
f. TXT x16507
f. TXT x16508
f. TXT x16509
f. TXT x16510
f. TXT x16511
$TTL 4294967295
f. TXT x16513
f. TXT x16514
f. TXT x16515
f. TXT x16516
f. TXT x16517
f. TXT x16518
f. TXT x16519
f. TXT x16520
f. TXT x16521
f. TXT x16522
f. TXT x16523
f. TXT x16524
f. TXT x16525
f. TXT x16526
f. TXT x16527
f. TXT x16528
f. TXT x16529
f. TXT x16530
f. TXT x16531
f. TXT x16532
f. TXT x16533
f. TXT x16534
f. TXT x16535
f. TXT x16536
f. TXT x16537
f. TXT x16538
f. TXT x16539
f. TXT x16540
f. TXT x16541
f. TXT x16542
f. TXT x16543
f. TXT x16544
f. TXT x16545
f. TXT x16546
f. TXT x16547
f. TXT x16548
f. TXT x16549
f. TXT x16550
f. TXT x16551
f. TXT x16552
f. TXT x16553
f. TXT x16554
f. TXT x16555
f. TXT x16556
f. TXT x16557
f. TXT x16558
f. TXT x16559
f. TXT x16560
f. TXT x16561
f. TXT x16562
f. TXT x16563
f. TXT x16564
f. TXT x16565
f. TXT x16566
f. TXT x16567
f. TXT x16568
f. TXT x16569
f. TXT x16570
f. TXT x16571
f. TXT x16572
f. TXT x16573
f. TXT x16574
f. TXT x16575
aaaa. A zcb - xzbx
f. TXT x16577
f. TXT x16578
f. TXT x16579
f. TXT x16580
f. TXT x16581
f. TXT x16582
f. TXT x16583
f. TXT x16584
f. TXT x16585
f. TXT x16586
f. TXT x16587
f. TXT x16588
f. TXT x16589
f. TXT x16590
f. TXT x16591
f. TXT x16592
f. TXT x16593
f. TXT x16594
f. TXT x16595
f. TXT x16596
f. TXT x16597
f. TXT x16598
f. TXT x16599
f. TXT x16600
f. TXT x16601
f. TXT x16602
f. TXT x16603
f. TXT x16604
f. TXT x16605
f. TXT x16606
f. TXT x16607
f. TXT x16608
f. TXT x16609
f. TXT x16610
f. TXT x16611
f. TXT x16612
f. TXT x16613
f. TXT x16614
f. TXT x16615
f. TXT x16616
f. TXT x16617
f. TXT x16618
f. TXT x16619
f. TXT x16620
f. TXT x16621
f. TXT x16622
f. TXT x16623
f. TXT x16624
f. TXT x16625
f. TXT x16626
f. TXT x16627
f. TXT x16628
f. TXT x16629
f. TXT x16630
f. TXT x16631
f. TXT x16632
f. TXT x16633
f. TXT x16634
f. TXT x16635
f. TXT x16636
f. TXT x16637
f. TXT x16638
f. TXT x16639
y- NS c
f. TXT x16641
f. TXT x16642
f. TXT x16643
f. TXT x16644
f. TXT x16645
f. TXT x16646
f. TXT x16647
f. TXT x16648
f. TXT x16649
f. TXT x16650
f. TXT x16651
f. TXT x16652
f. TXT x16653
f. TXT x16654
f. TXT x16655
f. TXT x16656
f. TXT x16657
f. TXT x16658
f. TXT x16659
f. TXT x16660
f. TXT x16661
f. TXT x16662
f. TXT x16663
f. TXT x16664
f. TXT x16665
f. TXT x16666
f. TXT x16667
f. TXT x16668
f. TXT x16669
f. TXT x16670
f. TXT x16671
f. TXT x16672
f. TXT x16673
f. TXT x16674
f. TXT x16675
f. TXT x16676
f. TXT x16677
f. TXT x16678
f. TXT x16679
f. TXT x16680
f. TXT x16681
f. TXT x16682
f. TXT x16683
f. TXT x16684
f. TXT x16685
f. TXT x16686
f. TXT x16687
f. TXT x16688
f. TXT x16689
f. TXT x16690
f. TXT x16691
f. TXT x16692
f. TXT x16693
f. TXT x16694
f. TXT x16695
f. TXT x16696
f. TXT x16697
f. TXT x16698
f. TXT x16699
f. TXT x16700
f. TXT x16701
f. TXT x16702
f. TXT x16703
z-ba. NS -c
f. TXT x16705
f. TXT x16706
f. TXT x16707
f. TXT x16708
f. TXT x16709
f. TXT x16710
f. TXT x16711
f. TXT x16712
f. TXT x16713
f. TXT x16714
f. TXT x16715
f. TXT x16716
f. TXT x16717
f. TXT x16718
f. TXT x16719
f. TXT x16720
f. TXT x16721
f. TXT x16722
f. TXT x16723
f. TXT x16724
f. TXT x16725
f. TXT x16726
f. TXT x16727
f. TXT x16728
f. TXT x16729
f. TXT x16730
f. TXT x16731
f. TXT x16732
f. TXT x16733
f. TXT x16734
f. TXT x16735
f. TXT x16736
f. TXT x16737
f. TXT x16738
f. TXT x16739
f. TXT x16740
f. TXT x16741
f. TXT x16742
f. TXT x16743
f. TXT x16744
f. TXT x16745
f. TXT x16746
f. TXT x16747
f. TXT x16748
f. TXT x16749
f. TXT x16750
f. TXT x16751
f. TXT x16752
f. TXT x16753
f. TXT x16754
f. TXT x16755
f. TXT x16756
f. TXT x16757
f. TXT x16758
f. TXT x16759
f. TXT x16760
f. TXT x16761
f. TXT x16762
f. TXT x16763
f. TXT x16764
f. TXT x16765
f. TXT x16766
f. TXT x16767
c.*by. TXT y *
f. TXT x16769
f. TXT x16770
f. TXT x16771
f. TXT x16772
f. TXT x16773
f. TXT x16774
f. TXT x16775
f. TXT x16776
f. TXT x16777
f. TXT x16778
f. TXT x16779
f. TXT x16780
f. TXT x16781
f. TXT x16782
f. TXT x16783
f. TXT x16784
f. TXT x16785
f. TXT x16786
f. TXT x16787
f. TXT x16788
f. TXT x16789
f. TXT x16790
f. TXT x16791
f. TXT x16792
f. TXT x16793
f. TXT x16794
f. TXT x16795
f. TXT x16796
f. TXT x16797
f. TXT x16798
f. TXT x16799
f. TXT x16800
f. TXT x16801
f. TXT x16802
f. TXT x16803
f. TXT x16804
f. TXT x16805
f. TXT x16806
f. TXT x16807
f. TXT x16808
f. TXT x16809
f. TXT x16810
f. TXT x16811
f. TXT x16812
f. TXT x16813
f. TXT x16814
f. TXT x16815
f. TXT x16816
f. TXT x16817
f. TXT x16818
f. TXT x16819
f. TXT x16820
f. TXT x16821
f. TXT x16822
f. TXT x16823
f. TXT x16824
f. TXT x16825
f. TXT x16826
f. TXT x16827
f. TXT x16828
f. TXT x16829
f. TXT x16830
f. TXT x16831
z. A zbzb -y c*ac
f. TXT x16833
f. TXT x16834
f. TXT x16835
f. TXT x16836
f. TXT x16837
f. TXT x16838
f. TXT x16839
f. TXT x16840
f. TXT x16841
f. TXT x16842
f. TXT x16843
f. TXT x16844
f. TXT x16845
f. TXT x16846
f. TXT x16847
f. TXT x16848
f. TXT x16849
f. TXT x16850
f. TXT x16851
f. TXT x16852
f. TXT x16853
f. TXT x16854
f. TXT x16855
f. TXT x16856
f. TXT x16857
f. TXT x16858
f. TXT x16859
f. TXT x16860
f. TXT x16861
f. TXT x16862
f. TXT x16863
f. TXT x16864
f. TXT x16865
f. TXT x16866
f. TXT x16867
f. TXT x16868
f. TXT x16869
f. TXT x16870
f. TXT x16871
f. TXT x16872
f. TXT x16873
f. TXT x16874
f. TXT x16875
f. TXT x16876
f. TXT x16877
f. TXT x16878
f. TXT x16879
f. TXT x16880
f. TXT x16881
f. TXT x16882
f. TXT x16883
f. TXT x16884
f. TXT x16885
f. TXT x16886
f. TXT x16887
f. TXT x16888
f. TXT x16889
f. TXT x16890
f. TXT x16891
f. TXT x16892
f. TXT x16893
f. TXT x16894
f. TXT x16895
 NS ba-
f. TXT x16897
f. TXT x16898
f. TXT x16899
f. TXT x16900
f. TXT x16901
f. TXT x16902
f. TXT x16903
f. TXT x16904
f. TXT x16905
f. TXT x16906
f. TXT x16907
f. TXT x16908
f. TXT x16909
f. TXT x16910
f. TXT x16911
f. TXT x16912
f. TXT x16913
f. TXT x16914
f. TXT x16915
f. TXT x16916
f. TXT x16917
f. TXT x16918
f. TXT x16919
f. TXT x16920
f. TXT x16921
f. TXT x16922
f. TXT x16923
f. TXT x16924
f. TXT x16925
f. TXT x16926
f. TXT x16927
f. TXT x16928
f. TXT x16929
f. TXT x16930
f. TXT x16931
f. TXT x16932
f. TXT x16933
f. TXT x16934
f. TXT x16935
f. TXT x16936
f. TXT x16937
f. TXT x16938
f. TXT x16939
f. TXT x16940
f. TXT x16941
f. TXT x16942
f. TXT x16943
f. TXT x16944
f. TXT x16945
f. TXT x16946
f. TXT x16947
f. TXT x16948
f. TXT x16949
f. TXT x16950
f. TXT x16951
f. TXT x16952
f. TXT x16953
f. TXT x16954
f. TXT x16955
f. TXT x16956
f. TXT x16957
f. TXT x16958
f. TXT x16959
@ A 0a ac
f. TXT x16961
f. TXT x16962
f. TXT x16963
f. TXT x16964
f. TXT x16965
f. TXT x16966
f. TXT x16967
f. TXT x16968
f. TXT x16969
f. TXT x16970
f. TXT x16971
f. TXT x16972
f. TXT x16973
f. TXT x16974
f. TXT x16975
f. TXT x16976
f. TXT x16977
f. TXT x16978
f. TXT x16979
f. TXT x16980
f. TXT x16981
f. TXT x16982
f. TXT x16983
f. TXT x16984
f. TXT x16985
f. TXT x16986
f. TXT x16987
f. TXT x16988
f. TXT x16989
f. TXT x16990
f. TXT x16991
f. TXT x16992
f. TXT x16993
f. TXT x16994
f. TXT x16995
f. TXT x16996
f. TXT x16997
f. TXT x16998
f. TXT x16999
f. TXT x17000
f. TXT x17001
f. TXT x17002
f. TXT x17003
f. TXT x17004
f. TXT x17005
f. TXT x17006
f. TXT x17007
f. TXT x17008
f. TXT x17009
f. TXT x17010
f. TXT x17011
f. TXT x17012
f. TXT x17013
f. TXT x17014
f. TXT x17015
f. TXT x17016
f. TXT x17017
f. TXT x17018
f. TXT x17019
f. TXT x17020
f. TXT x17021
f. TXT x17022
f. TXT x17023
@ TXT y xb
f. TXT x17025
f. TXT x17026
f. TXT x17027
f. TXT x17028
f. TXT x17029
f. TXT x17030
f. TXT x17031
f. TXT x17032
f. TXT x17033
f. TXT x17034
f. TXT x17035
f. TXT x17036
f. TXT x17037
f. TXT x17038
f. TXT x17039
f. TXT x17040
f. TXT x17041
f. TXT x17042
f. TXT x17043
f. TXT x17044
f. TXT x17045
f. TXT x17046
f. TXT x17047
f. TXT x17048
f. TXT x17049
f. TXT x17050
f. TXT x17051
f. TXT x17052
f. TXT x17053
f. TXT x17054
f. TXT x17055
f. TXT x17056
f. TXT x17057
f. TXT x17058
f. TXT x17059
f. TXT x17060
f. TXT x17061
f. TXT x17062
f. TXT x17063
f. TXT x17064
f. TXT x17065
f. TXT x17066
f. TXT x17067
f. TXT x17068
f. TXT x17069
f. TXT x17070
f. TXT x17071
f. TXT x17072
f. TXT x17073
f. TXT x17074
f. TXT x17075
f. TXT x17076
f. TXT x17077
f. TXT x17078
f. TXT x17079
f. TXT x17080
f. TXT x17081
f. TXT x17082
f. TXT x17083
f. TXT x17084
f. TXT x17085
f. TXT x17086
f. TXT x17087
x0a. NS axz --
f. TXT x17089
f. TXT x17090
f. TXT x17091
f. TXT x17092
f. TXT x17093
f. TXT x17094
f. TXT x17095
f. TXT x17096
f. TXT x17097
f. TXT x17098
f. TXT x17099
f. TXT x17100
f. TXT x17101
f. TXT x17102
f. TXT x17103
f. TXT x17104
f. TXT x17105
f. TXT x17106
f. TXT x17107
f. TXT x17108
f. TXT x17109
f. TXT x17110
f. TXT x17111
f. TXT x17112
f. TXT x17113
f. TXT x17114
f. TXT x17115
f. TXT x17116
f. TXT x17117
f. TXT x17118
f. TXT x17119
f. TXT x17120
f. TXT x17121
f. TXT x17122
f. TXT x17123
f. TXT x17124
f. TXT x17125
f. TXT x17126
f. TXT x17127
f. TXT x17128
f. TXT x17129
f. TXT x17130
f. TXT x17131
f. TXT x17132
f. TXT x17133
f. TXT x17134
f. TXT x17135
f. TXT x17136
f. TXT x17137
f. TXT x17138
f. TXT x17139
f. TXT x17140
f. TXT x17141
f. TXT x17142
f. TXT x17143
f. TXT x17144
f. TXT x17145
f. TXT x17146
f. TXT x17147
f. TXT x17148
f. TXT x17149
f. TXT x17150
f. TXT x17151
*yay. A 0 *xyb
f. TXT x17153
f. TXT x17154
f. TXT x17155
f. TXT x17156
f. TXT x17157
f. TXT x17158
f. TXT x17159
f. TXT x17160
f. TXT x17161
f. TXT x17162
f. TXT x17163
f. TXT x17164
f. TXT x17165
f. TXT x17166
f. TXT x17167
f. TXT x17168
f. TXT x17169
f. TXT x17170
f. TXT x17171
f. TXT x17172
f. TXT x17173
f. TXT x17174
f. TXT x17175
f. TXT x17176
f. TXT x17177
f. TXT x17178
f. TXT x17179
f. TXT x17180
f. TXT x17181
f. TXT x17182
f. TXT x17183
f. TXT x17184
f. TXT x17185
f. TXT x17186
f. TXT x17187
f. TXT x17188
f. TXT x17189
f. TXT x17190
f. TXT x17191
f. TXT x17192
f. TXT x17193
f. TXT x17194
f. TXT x17195
f. TXT x17196
f. TXT x17197
f. TXT x17198
f. TXT x17199
f. TXT x17200
f. TXT x17201
f. TXT x17202
f. TXT x17203
f. TXT x17204
f. TXT x17205
f. TXT x17206
f. TXT x17207
f. TXT x17208
f. TXT x17209
f. TXT x17210
f. TXT x17211
f. TXT x17212
f. TXT x17213
f. TXT x17214
f. TXT x17215

f. TXT x17217
f. TXT x17218
f. TXT x17219
f. TXT x17220
f. TXT x17221
f. TXT x17222
f. TXT x17223
f. TXT x17224
f. TXT x17225
f. TXT x17226
f. TXT x17227
f. TXT x17228
f. TXT x17229
f. TXT x17230
f. TXT x17231
f. TXT x17232
f. TXT x17233
f. TXT x17234
f. TXT x17235
f. TXT x17236
f. TXT x17237
f. TXT x17238
f. TXT x17239
f. TXT x17240
f. TXT x17241
f. TXT x17242
f. TXT x17243
f. TXT x17244
f. TXT x17245
f. TXT x17246
f. TXT x17247
f. TXT x17248
f. TXT x17249
f. TXT x17250
f. TXT x17251
f. TXT x17252
f. TXT x17253
f. TXT x17254
f. TXT x17255
f. TXT x17256
f. TXT x17257
f. TXT x17258
f. TXT x17259
f. TXT x17260
f. TXT x17261
f. TXT x17262
f. TXT x17263
f. TXT x17264
f. TXT x17265
f. TXT x17266
f. TXT x17267
f. TXT x17268
f. TXT x17269
f. TXT x17270
f. TXT x17271
f. TXT x17272
f. TXT x17273
f. TXT x17274
f. TXT x17275
f. TXT x17276
f. TXT x17277
f. TXT x17278
f. TXT x17279
@ NS 0 -x 00
f. TXT x17281
f. TXT x17282
f. TXT x17283
f. TXT x17284
f. TXT x17285
f. TXT x17286
f. TXT x17287
f. TXT x17288
f. TXT x17289
f. TXT x17290
f. TXT x17291
f. TXT x17292
f. TXT x17293
f. TXT x17294
f. TXT x17295
f. TXT x17296
f. TXT x17297
f. TXT x17298
f. TXT x17299
f. TXT x17300
f. TXT x17301
f. TXT x17302
f. TXT x17303
f. TXT x17304
f. TXT x17305
f. TXT x17306
f. TXT x17307
f. TXT x17308
f. TXT x17309
f. TXT x17310
f. TXT x17311
f. TXT x17312
f. TXT x17313
f. TXT x17314
f. TXT x17315
f. TXT x17316
f. TXT x17317
f. TXT x17318
f. TXT x17319
f. TXT x17320
f. TXT x17321
f. TXT x17322
f. TXT x17323
f. TXT x17324
f. TXT x17325
f. TXT x17326
f. TXT x17327
f. TXT x17328
f. TXT x17329
f. TXT x17330
f. TXT x17331
f. TXT x17332
f. TXT x17333
f. TXT x17334
f. TXT x17335
f. TXT x17336
f. TXT x17337
f. TXT x17338
f. TXT x17339
f. TXT x17340
f. TXT x17341
f. TXT x17342
f. TXT x17343
 NS xx-a
f. TXT x17345
f. TXT x17346
f. TXT x17347
f. TXT x17348
f. TXT x17349
f. TXT x17350
f. TXT x17351
f. TXT x17352
f. TXT x17353
f. TXT x17354
f. TXT x17355
f. TXT x17356
f. TXT x17357
f. TXT x17358
f. TXT x17359
f. TXT x17360
f. TXT x17361
f. TXT x17362
f. TXT x17363
f. TXT x17364
f. TXT x17365
f. TXT x17366
f. TXT x17367
f. TXT x17368
f. TXT x17369
f. TXT x17370
f. TXT x17371
f. TXT x17372
f. TXT x17373
f. TXT x17374
f. TXT x17375
f. TXT x17376
f. TXT x17377
f. TXT x17378
f. TXT x17379
f. TXT x17380
f. TXT x17381
f. TXT x17382
f. TXT x17383
f. TXT x17384
f. TXT x17385
f. TXT x17386
f. TXT x17387
f. TXT x17388
f. TXT x17389
f. TXT x17390
f. TXT x17391
f. TXT x17392
f. TXT x17393
f. TXT x17394
f. TXT x17395
f. TXT x17396
f. TXT x17397
f. TXT x17398
f. TXT x17399
f. TXT x17400
f. TXT x17401
f. TXT x17402
f. TXT x17403
f. TXT x17404
f. TXT x17405
f. TXT x17406
f. TXT x17407
$TTL 3
f. TXT x17409
f. TXT x17410
f. TXT x17411
f. TXT x17412
f. TXT x17413
f. TXT x17414
f. TXT x17415
f. TXT x17416
f. TXT x17417
f. TXT x17418
f. TXT x17419
f. TXT x17420
f. TXT x17421
f. TXT x17422
f. TXT x17423
f. TXT x17424
f. TXT x17425
f. TXT x17426
f. TXT x17427
f. TXT x17428
f. TXT x17429
f. TXT x17430
f. TXT x17431
f. TXT x17432
f. TXT x17433
f. TXT x17434
f. TXT x17435
f. TXT x17436
f. TXT x17437
f. TXT x17438
f. TXT x17439
f. TXT x17440
f. TXT x17441
f. TXT x17442
f. TXT x17443
f. TXT x17444
f. TXT x17445
f. TXT x17446
f. TXT x17447
f. TXT x17448
f. TXT x17449
f. TXT x17450
f. TXT x17451
f. TXT x17452
f. TXT x17453
f. TXT x17454
f. TXT x17455
f. TXT x17456
f. TXT x17457
f. TXT x17458
f. TXT x17459
f. TXT x17460
f. TXT x17461
f. TXT x17462
f. TXT x17463
f. TXT x17464
f. TXT x17465
f. TXT x17466
f. TXT x17467
f. TXT x17468
f. TXT x17469
f. TXT x17470
f. TXT x17471
a TXT ab
f. TXT x17473
f. TXT x17474
f. TXT x17475
f. TXT x17476
f. TXT x17477
f. TXT x17478
f. TXT x17479
f. TXT x17480
f. TXT x17481
f. TXT x17482
f. TXT x17483
f. TXT x17484
f. TXT x17485
f. TXT x17486
f. TXT x17487
f. TXT x17488
f. TXT x17489
f. TXT x17490
f. TXT x17491
f. TXT x17492
f. TXT x17493
f. TXT x17494
f. TXT x17495
f. TXT x17496
f. TXT x17497
f. TXT x17498
f. TXT x17499
f. TXT x17500
f. TXT x17501
f. TXT x17502
f. TXT x17503
f. TXT x17504
f. TXT x17505
f. TXT x17506
f. TXT x17507
f. TXT x17508
f. TXT x17509
f. TXT x17510
f. TXT x17511
f. TXT x17512
f. TXT x17513
f. TXT x17514
f. TXT x17515
f. TXT x17516
f. TXT x17517
f. TXT x17518
f. TXT x17519
f. TXT x17520
f. TXT x17521
f. TXT x17522
f. TXT x17523
f. TXT x17524
f. TXT x17525
f. TXT x17526
f. TXT x17527
f. TXT x17528
f. TXT x17529
f. TXT x17530
f. TXT x17531
f. TXT x17532
f. TXT x17533
f. TXT x17534
f. TXT x17535
$TTL 8
f. TXT x17537
f. TXT x17538
f. TXT x17539
f. TXT x17540
f. TXT x17541
f. TXT x17542
f. TXT x17543
f. TXT x17544
f. TXT x17545
f. TXT x17546
f. TXT x17547
f. TXT x17548
f. TXT x17549
f. TXT x17550
f. TXT x17551
f. TXT x17552
f. TXT x17553
f. TXT x17554
f. TXT x17555
f. TXT x17556
f. TXT x17557
f. TXT x17558
f. TXT x17559
f. TXT x17560
f. TXT x17561
f. TXT x17562
f. TXT x17563
f. TXT x17564
f. TXT x17565
f. TXT x17566
f. TXT x17567
f. TXT x17568
f. TXT x17569
f. TXT x17570
f. TXT x17571
f. TXT x17572
f. TXT x17573
f. TXT x17574
f. TXT x17575
f. TXT x17576
f. TXT x17577
f. TXT x17578
f. TXT x17579
f. TXT x17580
f. TXT x17581
f. TXT x17582
f. TXT x17583
f. TXT x17584
f. TXT x17585
f. TXT x17586
f. TXT x17587
f. TXT x17588
f. TXT x17589
f. TXT x17590
f. TXT x17591
f. TXT x17592
f. TXT x17593
f. TXT x17594
f. TXT x17595
f. TXT x17596
f. TXT x17597
f. TXT x17598
f. TXT x17599
-b- A x- xb byx
f. TXT x17601
f. TXT x17602
f. TXT x17603
f. TXT x17604
f. TXT x17605
f. TXT x17606
f. TXT x17607
f. TXT x17608
f. TXT x17609
f. TXT x17610
f. TXT x17611
f. TXT x17612
f. TXT x17613
f. TXT x17614
f. TXT x17615
f. TXT x17616
f. TXT x17617
f. TXT x17618
f. TXT x17619
f. TXT x17620
f. TXT x17621
f. TXT x17622
f. TXT x17623
f. TXT x17624
f. TXT x17625
f. TXT x17626
f. TXT x17627
f. TXT x17628
f. TXT x17629
f. TXT x17630
f. TXT x17631
f. TXT x17632
f. TXT x17633
f. TXT x17634
f. TXT x17635
f. TXT x17636
f. TXT x17637
f. TXT x17638
f. TXT x17639
f. TXT x17640
f. TXT x17641
f. TXT x17642
f. TXT x17643
f. TXT x17644
f. TXT x17645
f. TXT x17646
f. TXT x17647
f. TXT x17648
f. TXT x17649
f. TXT x17650
f. TXT x17651
f. TXT x17652
f. TXT x17653
f. TXT x17654
f. TXT x17655
f. TXT x17656
f. TXT x17657
f. TXT x17658
f. TXT x17659
f. TXT x17660
f. TXT x17661
f. TXT x17662
f. TXT x17663
 TXT -azz *0c
f. TXT x17665
f. TXT x17666
f. TXT x17667
f. TXT x17668
f. TXT x17669
f. TXT x17670
f. TXT x17671
f. TXT x17672
f. TXT x17673
f. TXT x17674
f. TXT x17675
f. TXT x17676
f. TXT x17677
f. TXT x17678
f. TXT x17679
f. TXT x17680
f. TXT x17681
f. TXT x17682
f. TXT x17683
f. TXT x17684
f. TXT x17685
f. TXT x17686
f. TXT x17687
f. TXT x17688
f. TXT x17689
f. TXT x17690
f. TXT x17691
f. TXT x17692
f. TXT x17693
f. TXT x17694
f. TXT x17695
f. TXT x17696
f. TXT x17697
f. TXT x17698
f. TXT x17699
f. TXT x17700
f. TXT x17701
f. TXT x17702
f. TXT x17703
f. TXT x17704
f. TXT x17705
f. TXT x17706
f. TXT x17707
f. TXT x17708
f. TXT x17709
f. TXT x17710
f. TXT x17711
f. TXT x17712
f. TXT x17713
f. TXT x17714
f. TXT x17715
f. TXT x17716
f. TXT x17717
f. TXT x17718
f. TXT x17719
f. TXT x17720
f. TXT x17721
f. TXT x17722
f. TXT x17723
f. TXT x17724
f. TXT x17725
f. TXT x17726
f. TXT x17727
@ NS ayc y
f. TXT x17729
f. TXT x17730
f. TXT x17731
f. TXT x17732
f. TXT x17733
f. TXT x17734
f. TXT x17735
f. TXT x17736
f. TXT x17737
f. TXT x17738
f. TXT x17739
f. TXT x17740
f. TXT x17741
f. TXT x17742
f. TXT x17743
f. TXT x17744
f. TXT x17745
f. TXT x17746
f. TXT x17747
f. TXT x17748
f. TXT x17749
f. TXT x17750
f. TXT x17751
f. TXT x17752
f. TXT x17753
f. TXT x17754
f. TXT x17755
f. TXT x17756
f. TXT x17757
f. TXT x17758
f. TXT x17759
f. TXT x17760
f. TXT x17761
f. TXT x17762
f. TXT x17763
f. TXT x17764
f. TXT x17765
f. TXT x17766
f. TXT x17767
f. TXT x17768
f. TXT x17769
f. TXT x17770
f. TXT x17771
f. TXT x17772
f. TXT x17773
f. TXT x17774
f. TXT x17775
f. TXT x17776
f. TXT x17777
f. TXT x17778
f. TXT x17779
f. TXT x17780
f. TXT x17781
f. TXT x17782
f. TXT x17783
f. TXT x17784
f. TXT x17785
f. TXT x17786
f. TXT x17787
f. TXT x17788
f. TXT x17789
f. TXT x17790
f. TXT x17791
z. NS -0b x*
f. TXT x17793
f. TXT x17794
f. TXT x17795
f. TXT x17796
f. TXT x17797
f. TXT x17798
f. TXT x17799
f. TXT x17800
f. TXT x17801
f. TXT x17802
f. TXT x17803
f. TXT x17804
f. TXT x17805
f. TXT x17806
f. TXT x17807
f. TXT x17808
f. TXT x17809
f. TXT x17810
f. TXT x17811
f. TXT x17812
f. TXT x17813
f. TXT x17814
f. TXT x17815
f. TXT x17816
f. TXT x17817
f. TXT x17818
f. TXT x17819
f. TXT x17820
f. TXT x17821
f. TXT x17822
f. TXT x17823
f. TXT x17824
f. TXT x17825
f. TXT x17826
f. TXT x17827
f. TXT x17828
f. TXT x17829
f. TXT x17830
f. TXT x17831
f. TXT x17832
f. TXT x17833
f. TXT x17834
f. TXT x17835
f. TXT x17836
f. TXT x17837
f. TXT x17838
f. TXT x17839
f. TXT x17840
f. TXT x17841
f. TXT x17842
f. TXT x17843
f. TXT x17844
f. TXT x17845
f. TXT x17846
f. TXT x17847
f. TXT x17848
f. TXT x17849
f. TXT x17850
f. TXT x17851
f. TXT x17852
f. TXT x17853
f. TXT x17854
f. TXT x17855
00x. A a
f. TXT x17857
f. TXT x17858
f. TXT x17859
f. TXT x17860
f. TXT x17861
f. TXT x17862
f. TXT x17863
f. TXT x17864
f. TXT x17865
f. TXT x17866
f. TXT x17867
f. TXT x17868
f. TXT x17869
f. TXT x17870
f. TXT x17871
f. TXT x17872
f. TXT x17873
f. TXT x17874
f. TXT x17875
f. TXT x17876
f. TXT x17877
f. TXT x17878
f. TXT x17879
f. TXT x17880
f. TXT x17881
f. TXT x17882
f. TXT x17883
f. TXT x17884
f. TXT x17885
f. TXT x17886
f. TXT x17887
f. TXT x17888
f. TXT x17889
f. TXT x17890
f. TXT x17891
f. TXT x17892
f. TXT x17893
f. TXT x17894
f. TXT x17895
f. TXT x17896
f. TXT x17897
f. TXT x17898
f. TXT x17899
f. TXT x17900
f. TXT x17901
f. TXT x17902
f. TXT x17903
f. TXT x17904
f. TXT x17905
f. TXT x17906
f. TXT x17907
f. TXT x17908
f. TXT x17909
f. TXT x17910
f. TXT x17911
f. TXT x17912
f. TXT x17913
f. TXT x17914
f. TXT x17915
f. TXT x17916
f. TXT x17917
f. TXT x17918
f. TXT x17919
; xz-
f. TXT x17921
f. TXT x17922
f. TXT x17923
f. TXT x17924
f. TXT x17925
f. TXT x17926
f. TXT x17927
f. TXT x17928
f. TXT x17929
f. TXT x17930
f. TXT x17931
f. TXT x17932
f. TXT x17933
f. TXT x17934
f. TXT x17935
f. TXT x17936
f. TXT x17937
f. TXT x17938
f. TXT x17939
f. TXT x17940
f. TXT x17941
f. TXT x17942
f. TXT x17943
f. TXT x17944
f. TXT x17945
f. TXT x17946
f. TXT x17947
f. TXT x17948
f. TXT x17949
f. TXT x17950
f. TXT x17951
f. TXT x17952
f. TXT x17953
f. TXT x17954
f. TXT x17955
f. TXT x17956
f. TXT x17957
f. TXT x17958
f. TXT x17959
f. TXT x17960
f. TXT x17961
f. TXT x17962
f. TXT x17963
f. TXT x17964
f. TXT x17965
f. TXT x17966
f. TXT x17967
f. TXT x17968
f. TXT x17969
f. TXT x17970
f. TXT x17971
f. TXT x17972
f. TXT x17973
f. TXT x17974
f. TXT x17975
f. TXT x17976
f. TXT x17977
f. TXT x17978
f. TXT x17979
f. TXT x17980
f. TXT x17981
f. TXT x17982
f. TXT x17983
 TXT *yzc
f. TXT x17985
f. TXT x17986
f. TXT x17987
f. TXT x17988
f. TXT x17989
f. TXT x17990
f. TXT x17991
f. TXT x17992
f. TXT x17993
f. TXT x17994
f. TXT x17995
f. TXT x17996
f. TXT x17997
f. TXT x17998
f. TXT x17999
f. TXT x18000
f. TXT x18001
f. TXT x18002
f. TXT x18003
f. TXT x18004
f. TXT x18005
f. TXT x18006
f. TXT x18007
f. TXT x18008
f. TXT x18009
f. TXT x18010
f. TXT x18011
f. TXT x18012
f. TXT x18013
f. TXT x18014
f. TXT x18015
f. TXT x18016
f. TXT x18017
f. TXT x18018
f. TXT x18019
f. TXT x18020
f. TXT x18021
f. TXT x18022
f. TXT x18023
f. TXT x18024
f. TXT x18025
f. TXT x18026
f. TXT x18027
f. TXT x18028
f. TXT x18029
f. TXT x18030
f. TXT x18031
f. TXT x18032
f. TXT x18033
f. TXT x18034
f. TXT x18035
f. TXT x18036
f. TXT x18037
f. TXT x18038
f. TXT x18039
f. TXT x18040
f. TXT x18041
f. TXT x18042
f. TXT x18043
f. TXT x18044
f. TXT x18045
f. TXT x18046
f. TXT x18047
*0-y NS xyxz
f. TXT x18049
f. TXT x18050
f. TXT x18051
f. TXT x18052
f. TXT x18053
f. TXT x18054
f. TXT x18055
f. TXT x18056
f. TXT x18057
f. TXT x18058
f. TXT x18059
f. TXT x18060
f. TXT x18061
f. TXT x18062
f. TXT x18063
f. TXT x18064
f. TXT x18065
f. TXT x18066
f. TXT x18067
f. TXT x18068
f. TXT x18069
f. TXT x18070
f. TXT x18071
f. TXT x18072
f. TXT x18073
f. TXT x18074
f. TXT x18075
f. TXT x18076
f. TXT x18077
f. TXT x18078
f. TXT x18079
f. TXT x18080
f. TXT x18081
f. TXT x18082
f. TXT x18083
f. TXT x18084
f. TXT x18085
f. TXT x18086
f. TXT x18087
f. TXT x18088
f. TXT x18089
f. TXT x18090
f. TXT x18091
f. TXT x18092
f. TXT x18093
f. TXT x18094
f. TXT x18095
f. TXT x18096
f. TXT x18097
f. TXT x18098
f. TXT x18099
f. TXT x18100
f. TXT x18101
f. TXT x18102
f. TXT x18103
f. TXT x18104
f. TXT x18105
f. TXT x18106
f. TXT x18107
f. TXT x18108
f. TXT x18109
f. TXT x18110
f. TXT x18111
b. A ayb
f. TXT x18113
f. TXT x18114
f. TXT x18115
f. TXT x18116
f. TXT x18117
f. TXT x18118
f. TXT x18119
f. TXT x18120
f. TXT x18121
f. TXT x18122
f. TXT x18123
f. TXT x18124
f. TXT x18125
f. TXT x18126
f. TXT x18127
f. TXT x18128
f. TXT x18129
f. TXT x18130
f. TXT x18131
f. TXT x18132
f. TXT x18133
f. TXT x18134
f. TXT x18135
f. TXT x18136
f. TXT x18137
f. TXT x18138
f. TXT x18139
f. TXT x18140
f. TXT x18141
f. TXT x18142
f. TXT x18143
f. TXT x18144
f. TXT x18145
f. TXT x18146
f. TXT x18147
f. TXT x18148
f. TXT x18149
f. TXT x18150
f. TXT x18151
f. TXT x18152
f. TXT x18153
f. TXT x18154
f. TXT x18155
f. TXT x18156
f. TXT x18157
f. TXT x18158
f. TXT x18159
f. TXT x18160
f. TXT x18161
f. TXT x18162
f. TXT x18163
f. TXT x18164
f. TXT x18165
f. TXT x18166
f. TXT x18167
f. TXT x18168
f. TXT x18169
f. TXT x18170
f. TXT x18171
f. TXT x18172
f. TXT x18173
f. TXT x18174
f. TXT x18175
$ORIGIN a-b.zz0.
f. TXT x18177
f. TXT x18178
f. TXT x18179
f. TXT x18180
f. TXT x18181
f. TXT x18182
f. TXT x18183
f. TXT x18184
f. TXT x18185
f. TXT x18186
f. TXT x18187
f. TXT x18188
f. TXT x18189
f. TXT x18190
f. TXT x18191
f. TXT x18192
f. TXT x18193
f. TXT x18194
f. TXT x18195
f. TXT x18196
f. TXT x18197
f. TXT x18198
f. TXT x18199
f. TXT x18200
f. TXT x18201
f. TXT x18202
f. TXT x18203
f. TXT x18204
f. TXT x18205
f. TXT x18206
f. TXT x18207
f. TXT x18208
f. TXT x18209
f. TXT x18210
f. TXT x18211
f. TXT x18212
f. TXT x18213
f. TXT x18214
f. TXT x18215
f. TXT x18216
f. TXT x18217
f. TXT x18218
f. TXT x18219
f. TXT x18220
f. TXT x18221
f. TXT x18222
f. TXT x18223
f. TXT x18224
f. TXT x18225
f. TXT x18226
f. TXT x18227
f. TXT x18228
f. TXT x18229
f. TXT x18230
f. TXT x18231
f. TXT x18232
f. TXT x18233
f. TXT x18234
f. TXT x18235
f. TXT x18236
f. TXT x18237
f. TXT x18238
f. TXT x18239
@ TXT y xz* c
f. TXT x18241
f. TXT x18242
f. TXT x18243
f. TXT x18244
f. TXT x18245
f. TXT x18246
f. TXT x18247
f. TXT x18248
f. TXT x18249
f. TXT x18250
f. TXT x18251
f. TXT x18252
f. TXT x18253
f. TXT x18254
f. TXT x18255
f. TXT x18256
f. TXT x18257
f. TXT x18258
f. TXT x18259
f. TXT x18260
f. TXT x18261
f. TXT x18262
f. TXT x18263
f. TXT x18264
f. TXT x18265
f. TXT x18266
f. TXT x18267
f. TXT x18268
f. TXT x18269
f. TXT x18270
f. TXT x18271
f. TXT x18272
f. TXT x18273
f. TXT x18274
f. TXT x18275
f. TXT x18276
f. TXT x18277
f. TXT x18278
f. TXT x18279
f. TXT x18280
f. TXT x18281
f. TXT x18282
f. TXT x18283
f. TXT x18284
f. TXT x18285
f. TXT x18286
f. TXT x18287
f. TXT x18288
f. TXT x18289
f. TXT x18290
f. TXT x18291
f. TXT x18292
f. TXT x18293
f. TXT x18294
f. TXT x18295
f. TXT x18296
f. TXT x18297
f. TXT x18298
f. TXT x18299
f. TXT x18300
f. TXT x18301
f. TXT x18302
f. TXT x18303
y.b. NS xy- x-zz z
f. TXT x18305
f. TXT x18306
f. TXT x18307
f. TXT x18308
f. TXT x18309
f. TXT x18310
f. TXT x18311
f. TXT x18312
f. TXT x18313
f. TXT x18314
f. TXT x18315
f. TXT x18316
f. TXT x18317
f. TXT x18318
f. TXT x18319
f. TXT x18320
f. TXT x18321
f. TXT x18322
f. TXT x18323
f. TXT x18324
f. TXT x18325
f. TXT x18326
f. TXT x18327
f. TXT x18328
f. TXT x18329
f. TXT x18330
f. TXT x18331
f. TXT x18332
f. TXT x18333
f. TXT x18334
f. TXT x18335
f. TXT x18336
f. TXT x18337
f. TXT x18338
f. TXT x18339
f. TXT x18340
f. TXT x18341
f. TXT x18342
f. TXT x18343
f. TXT x18344
f. TXT x18345
f. TXT x18346
f. TXT x18347
f. TXT x18348
f. TXT x18349
f. TXT x18350
f. TXT x18351
f. TXT x18352
f. TXT x18353
f. TXT x18354
f. TXT x18355
f. TXT x18356
f. TXT x18357
f. TXT x18358
f. TXT x18359
f. TXT x18360
f. TXT x18361
f. TXT x18362
f. TXT x18363
f. TXT x18364
f. TXT x18365
f. TXT x18366
f. TXT x18367
 A z0a
f. TXT x18369
f. TXT x18370
f. TXT x18371
f. TXT x18372
f. TXT x18373
f. TXT x18374
f. TXT x18375
f. TXT x18376
f. TXT x18377
f. TXT x18378
f. TXT x18379
f. TXT x18380
f. TXT x18381
f. TXT x18382
f. TXT x18383
f. TXT x18384
f. TXT x18385
f. TXT x18386
f. TXT x18387
f. TXT x18388
f. TXT x18389
f. TXT x18390
f. TXT x18391
f. TXT x18392
f. TXT x18393
f. TXT x18394
f. TXT x18395
f. TXT x18396
f. TXT x18397
f. TXT x18398
f. TXT x18399
f. TXT x18400
f. TXT x18401
f. TXT x18402
f. TXT x18403
f. TXT x18404
f. TXT x18405
f. TXT x18406
f. TXT x18407
f. TXT x18408
f. TXT x18409
f. TXT x18410
f. TXT x18411
f. TXT x18412
f. TXT x18413
f. TXT x18414
f. TXT x18415
f. TXT x18416
f. TXT x18417
f. TXT x18418
f. TXT x18419
f. TXT x18420
f. TXT x18421
f. TXT x18422
f. TXT x18423
f. TXT x18424
f. TXT x18425
f. TXT x18426
f. TXT x18427
f. TXT x18428
f. TXT x18429
f. TXT x18430
f. TXT x18431
 TXT z
f. TXT x18433
f. TXT x18434
f. TXT x18435
f. TXT x18436
f. TXT x18437
f. TXT x18438
f. TXT x18439
f. TXT x18440
f. TXT x18441
f. TXT x18442
f. TXT x18443
f. TXT x18444
f. TXT x18445
f. TXT x18446
f. TXT x18447
f. TXT x18448
f. TXT x18449
f. TXT x18450
f. TXT x18451
f. TXT x18452
f. TXT x18453
f. TXT x18454
f. TXT x18455
f. TXT x18456
f. TXT x18457
f. TXT x18458
f. TXT x18459
f. TXT x18460
f. TXT x18461
f. TXT x18462
f. TXT x18463
f. TXT x18464
f. TXT x18465
f. TXT x18466
f. TXT x18467
f. TXT x18468
f. TXT x18469
f. TXT x18470
f. TXT x18471
f. TXT x18472
f. TXT x18473
f. TXT x18474
f. TXT x18475
f. TXT x18476
f. TXT x18477
f. TXT x18478
f. TXT x18479
f. TXT x18480
f. TXT x18481
f. TXT x18482
f. TXT x18483
f. TXT x18484
f. TXT x18485
f. TXT x18486
f. TXT x18487
f. TXT x18488
f. TXT x18489
f. TXT x18490
f. TXT x18491
f. TXT x18492
f. TXT x18493
f. TXT x18494
f. TXT x18495
$TTL 1808498939
f. TXT x18497
f. TXT x18498
f. TXT x18499
f. TXT x18500
f. TXT x18501
f. TXT x18502
f. TXT x18503
f. TXT x18504
f. TXT x18505
f. TXT x18506
f. TXT x18507
f. TXT x18508
f. TXT x18509
f. TXT x18510
f. TXT x18511
f. TXT x18512
f. TXT x18513
f. TXT x18514
f. TXT x18515
f. TXT x18516
f. TXT x18517
f. TXT x18518
f. TXT x18519
f. TXT x18520
f. TXT x18521
f. TXT x18522
f. TXT x18523
f. TXT x18524
f. TXT x18525
f. TXT x18526
f. TXT x18527
f. TXT x18528
f. TXT x18529
f. TXT x18530
f. TXT x18531
f. TXT x18532
f. TXT x18533
f. TXT x18534
f. TXT x18535
f. TXT x18536
f. TXT x18537
f. TXT x18538
f. TXT x18539
f. TXT x18540
f. TXT x18541
f. TXT x18542
f. TXT x18543
f. TXT x18544
f. TXT x18545
f. TXT x18546
f. TXT x18547
f. TXT x18548
f. TXT x18549
f. TXT x18550
f. TXT x18551
f. TXT x18552
f. TXT x18553
f. TXT x18554
f. TXT x18555
f. TXT x18556
f. TXT x18557
f. TXT x18558
f. TXT x18559
$TTL 1
f. TXT x18561
f. TXT x18562
f. TXT x18563
f. TXT x18564
f. TXT x18565
f. TXT x18566
f. TXT x18567
f. TXT x18568
f. TXT x18569
f. TXT x18570
f. TXT x18571
f. TXT x18572
f. TXT x18573
f. TXT x18574
f. TXT x18575
f. TXT x18576
f. TXT x18577
f. TXT x18578
f. TXT x18579
f. TXT x18580
f. TXT x18581
f. TXT x18582
f. TXT x18583
f. TXT x18584
f. TXT x18585
f. TXT x18586
f. TXT x18587
f. TXT x18588
f. TXT x18589
f. TXT x18590
f. TXT x18591
f. TXT x18592
f. TXT x18593
f. TXT x18594
f. TXT x18595
f. TXT x18596
f. TXT x18597
f. TXT x18598
f. TXT x18599
f. TXT x18600
f. TXT x18601
f. TXT x18602
f. TXT x18603
f. TXT x18604
f. TXT x18605
f. TXT x18606
f. TXT x18607
f. TXT x18608
f. TXT x18609
f. TXT x18610
f. TXT x18611
f. TXT x18612
f. TXT x18613
f. TXT x18614
f. TXT x18615
f. TXT x18616
f. TXT x18617
f. TXT x18618
f. TXT x18619
f. TXT x18620
f. TXT x18621
f. TXT x18622
f. TXT x18623
@ TXT a
f. TXT x18625
f. TXT x18626
f. TXT x18627
f. TXT x18628
f. TXT x18629
f. TXT x18630
f. TXT x18631
f. TXT x18632
f. TXT x18633
f. TXT x18634
f. TXT x18635
f. TXT x18636
f. TXT x18637
f. TXT x18638
f. TXT x18639
f. TXT x18640
f. TXT x18641
f. TXT x18642
f. TXT x18643
f. TXT x18644
f. TXT x18645
f. TXT x18646
f. TXT x18647
f. TXT x18648
f. TXT x18649
f. TXT x18650
f. TXT x18651
f. TXT x18652
f. TXT x18653
f. TXT x18654
f. TXT x18655
f. TXT x18656
f. TXT x18657
f. TXT x18658
f. TXT x18659
f. TXT x18660
f. TXT x18661
f. TXT x18662
f. TXT x18663
f. TXT x18664
f. TXT x18665
f. TXT x18666
f. TXT x18667
f. TXT x18668
f. TXT x18669
f. TXT x18670
f. TXT x18671
f. TXT x18672
f. TXT x18673
f. TXT x18674
f. TXT x18675
f. TXT x18676
f. TXT x18677
f. TXT x18678
f. TXT x18679
f. TXT x18680
f. TXT x18681
f. TXT x18682
f. TXT x18683
f. TXT x18684
f. TXT x18685
f. TXT x18686
f. TXT x18687
$TTL 7
f. TXT x18689
f. TXT x18690
f. TXT x18691
f. TXT x18692
f. TXT x18693
f. TXT x18694
f. TXT x18695
f. TXT x18696
f. TXT x18697
f. TXT x18698
f. TXT x18699
f. TXT x18700
f. TXT x18701
f. TXT x18702
f. TXT x18703
f. TXT x18704
f. TXT x18705
f. TXT x18706
f. TXT x18707
f. TXT x18708
f. TXT x18709
f. TXT x18710
f. TXT x18711
f. TXT x18712
f. TXT x18713
f. TXT x18714
f. TXT x18715
f. TXT x18716
f. TXT x18717
f. TXT x18718
f. TXT x18719
f. TXT x18720
f. TXT x18721
f. TXT x18722
f. TXT x18723
f. TXT x18724
f. TXT x18725
f. TXT x18726
f. TXT x18727
f. TXT x18728
f. TXT x18729
f. TXT x18730
f. TXT x18731
f. TXT x18732
f. TXT x18733
f. TXT x18734
f. TXT x18735
f. TXT x18736
f. TXT x18737
f. TXT x18738
f. TXT x18739
f. TXT x18740
f. TXT x18741
f. TXT x18742
f. TXT x18743
f. TXT x18744
f. TXT x18745
f. TXT x18746
f. TXT x18747
f. TXT x18748
f. TXT x18749
f. TXT x18750
f. TXT x18751
; b*
f. TXT x18753
f. TXT x18754
f. TXT x18755
f. TXT x18756
f. TXT x18757
f. TXT x18758
f. TXT x18759
f. TXT x18760
f. TXT x18761
f. TXT x18762
f. TXT x18763
f. TXT x18764
f. TXT x18765
f. TXT x18766
f. TXT x18767
f. TXT x18768
f. TXT x18769
f. TXT x18770
f. TXT x18771
f. TXT x18772
f. TXT x18773
f. TXT x18774
f. TXT x18775
f. TXT x18776
f. TXT x18777
f. TXT x18778
f. TXT x18779
f. TXT x18780
f. TXT x18781
f. TXT x18782
f. TXT x18783
f. TXT x18784
f. TXT x18785
f. TXT x18786
f. TXT x18787
f. TXT x18788
f. TXT x18789
f. TXT x18790
f. TXT x18791
f. TXT x18792
f. TXT x18793
f. TXT x18794
f. TXT x18795
f. TXT x18796
f. TXT x18797
f. TXT x18798
f. TXT x18799
f. TXT x18800
f. TXT x18801
f. TXT x18802
f. TXT x18803
f. TXT x18804
f. TXT x18805
f. TXT x18806
f. TXT x18807
f. TXT x18808
f. TXT x18809
f. TXT x18810
f. TXT x18811
f. TXT x18812
f. TXT x18813
f. TXT x18814
f. TXT x18815

f. TXT x18817
f. TXT x18818
f. TXT x18819
f. TXT x18820
f. TXT x18821
f. TXT x18822
f. TXT x18823
f. TXT x18824
f. TXT x18825
f. TXT x18826
f. TXT x18827
f. TXT x18828
f. TXT x18829
f. TXT x18830
f. TXT x18831
f. TXT x18832
f. TXT x18833
f. TXT x18834
f. TXT x18835
f. TXT x18836
f. TXT x18837
f. TXT x18838
f. TXT x18839
f. TXT x18840
f. TXT x18841
f. TXT x18842
f. TXT x18843
f. TXT x18844
f. TXT x18845
f. TXT x18846
f. TXT x18847
f. TXT x18848
f. TXT x18849
f. TXT x18850
f. TXT x18851
f. TXT x18852
f. TXT x18853
f. TXT x18854
f. TXT x18855
f. TXT x18856
f. TXT x18857
f. TXT x18858
f. TXT x18859
f. TXT x18860
f. TXT x18861
f. TXT x18862
f. TXT x18863
f. TXT x18864
f. TXT x18865
f. TXT x18866
f. TXT x18867
f. TXT x18868
f. TXT x18869
f. TXT x18870
f. TXT x18871
f. TXT x18872
f. TXT x18873
f. TXT x18874
f. TXT x18875
f. TXT x18876
f. TXT x18877
f. TXT x18878
f. TXT x18879
xy*a A a- yx-b ay-
f. TXT x18881
f. TXT x18882
f. TXT x18883
f. TXT x18884
f. TXT x18885
f. TXT x18886
f. TXT x18887
f. TXT x18888
f. TXT x18889
f. TXT x18890
f. TXT x18891
f. TXT x18892
f. TXT x18893
f. TXT x18894
f. TXT x18895
f. TXT x18896
f. TXT x18897
f. TXT x18898
f. TXT x18899
f. TXT x18900
f. TXT x18901
f. TXT x18902
f. TXT x18903
f. TXT x18904
f. TXT x18905
f. TXT x18906
f. TXT x18907
f. TXT x18908
f. TXT x18909
f. TXT x18910
f. TXT x18911
f. TXT x18912
f. TXT x18913
f. TXT x18914
f. TXT x18915
f. TXT x18916
f. TXT x18917
f. TXT x18918
f. TXT x18919
f. TXT x18920
f. TXT x18921
f. TXT x18922
f. TXT x18923
f. TXT x18924
f. TXT x18925
f. TXT x18926
f. TXT x18927
f. TXT x18928
f. TXT x18929
f. TXT x18930
f. TXT x18931
f. TXT x18932
f. TXT x18933
f. TXT x18934
f. TXT x18935
f. TXT x18936
f. TXT x18937
f. TXT x18938
f. TXT x18939
f. TXT x18940
f. TXT x18941
f. TXT x18942
f. TXT x18943
; zya
f. TXT x18945
f. TXT x18946
f. TXT x18947
f. TXT x18948
f. TXT x18949
f. TXT x18950
f. TXT x18951
f. TXT x18952
f. TXT x18953
f. TXT x18954
f. TXT x18955
f. TXT x18956
f. TXT x18957
f. TXT x18958
f. TXT x18959
f. TXT x18960
f. TXT x18961
f. TXT x18962
f. TXT x18963
f. TXT x18964
f. TXT x18965
f. TXT x18966
f. TXT x18967
f. TXT x18968
f. TXT x18969
f. TXT x18970
f. TXT x18971
f. TXT x18972
f. TXT x18973
f. TXT x18974
f. TXT x18975
f. TXT x18976
f. TXT x18977
f. TXT x18978
f. TXT x18979
f. TXT x18980
f. TXT x18981
f. TXT x18982
f. TXT x18983
f. TXT x18984
f. TXT x18985
f. TXT x18986
f. TXT x18987
f. TXT x18988
f. TXT x18989
f. TXT x18990
f. TXT x18991
f. TXT x18992
f. TXT x18993
f. TXT x18994
f. TXT x18995
f. TXT x18996
f. TXT x18997
f. TXT x18998
f. TXT x18999
f. TXT x19000
f. TXT x19001
f. TXT x19002
f. TXT x19003
f. TXT x19004
f. TXT x19005
f. TXT x19006
f. TXT x19007
@ A xx*
f. TXT x19009
f. TXT x19010
f. TXT x19011
f. TXT x19012
f. TXT x19013
f. TXT x19014
f. TXT x19015
f. TXT x19016
f. TXT x19017
f. TXT x19018
f. TXT x19019
f. TXT x19020
f. TXT x19021
f. TXT x19022
f. TXT x19023
f. TXT x19024
f. TXT x19025
f. TXT x19026
f. TXT x19027
f. TXT x19028
f. TXT x19029
f. TXT x19030
f. TXT x19031
f. TXT x19032
f. TXT x19033
f. TXT x19034
f. TXT x19035
f. TXT x19036
f. TXT x19037
f. TXT x19038
f. TXT x19039
f. TXT x19040
f. TXT x19041
f. TXT x19042
f. TXT x19043
f. TXT x19044
f. TXT x19045
f. TXT x19046
f. TXT x19047
f. TXT x19048
f. TXT x19049
f. TXT x19050
f. TXT x19051
f. TXT x19052
f. TXT x19053
f. TXT x19054
f. TXT x19055
f. TXT x19056
f. TXT x19057
f. TXT x19058
f. TXT x19059
f. TXT x19060
f. TXT x19061
f. TXT x19062
f. TXT x19063
f. TXT x19064
f. TXT x19065
f. TXT x19066
f. TXT x19067
f. TXT x19068
f. TXT x19069
f. TXT x19070
f. TXT x19071
@ A 0 0
f. TXT x19073
f. TXT x19074
f. TXT x19075
f. TXT x19076
f. TXT x19077
f. TXT x19078
f. TXT x19079
f. TXT x19080
f. TXT x19081
f. TXT x19082
f. TXT x19083
f. TXT x19084
f. TXT x19085
f. TXT x19086
f. TXT x19087
f. TXT x19088
f. TXT x19089
f. TXT x19090
f. TXT x19091
f. TXT x19092
f. TXT x19093
f. TXT x19094
f. TXT x19095
f. TXT x19096
f. TXT x19097
f. TXT x19098
f. TXT x19099
f. TXT x19100
f. TXT x19101
f. TXT x19102
f. TXT x19103
f. TXT x19104
f. TXT x19105
f. TXT x19106
f. TXT x19107
f. TXT x19108
f. TXT x19109
f. TXT x19110
f. TXT x19111
f. TXT x19112
f. TXT x19113
f. TXT x19114
f. TXT x19115
f. TXT x19116
f. TXT x19117
f. TXT x19118
f. TXT x19119
f. TXT x19120
f. TXT x19121
f. TXT x19122
f. TXT x19123
f. TXT x19124
f. TXT x19125
f. TXT x19126
f. TXT x19127
f. TXT x19128
f. TXT x19129
f. TXT x19130
f. TXT x19131
f. TXT x19132
f. TXT x19133
f. TXT x19134
f. TXT x19135
-0bc.c. A x- ax
f. TXT x19137
f. TXT x19138
f. TXT x19139
f. TXT x19140
f. TXT x19141
f. TXT x19142
f. TXT x19143
f. TXT x19144
f. TXT x19145
f. TXT x19146
f. TXT x19147
f. TXT x19148
f. TXT x19149
f. TXT x19150
f. TXT x19151
f. TXT x19152
f. TXT x19153
f. TXT x19154
f. TXT x19155
f. TXT x19156
f. TXT x19157
f. TXT x19158
f. TXT x19159
f. TXT x19160
f. TXT x19161
f. TXT x19162
f. TXT x19163
f. TXT x19164
f. TXT x19165
f. TXT x19166
f. TXT x19167
f. TXT x19168
f. TXT x19169
f. TXT x19170
f. TXT x19171
f. TXT x19172
f. TXT x19173
f. TXT x19174
f. TXT x19175
f. TXT x19176
f. TXT x19177
f. TXT x19178
f. TXT x19179
f. TXT x19180
f. TXT x19181
f. TXT x19182
f. TXT x19183
f. TXT x19184
f. TXT x19185
f. TXT x19186
f. TXT x19187
f. TXT x19188
f. TXT x19189
f. TXT x19190
f. TXT x19191
f. TXT x19192
f. TXT x19193
f. TXT x19194
f. TXT x19195
f. TXT x19196
f. TXT x19197
f. TXT x19198
f. TXT x19199
* TXT * x0
f. TXT x19201
f. TXT x19202
f. TXT x19203
f. TXT x19204
f. TXT x19205
f. TXT x19206
f. TXT x19207
f. TXT x19208
f. TXT x19209
f. TXT x19210
f. TXT x19211
f. TXT x19212
f. TXT x19213
f. TXT x19214
f. TXT x19215
f. TXT x19216
f. TXT x19217
f. TXT x19218
f. TXT x19219
f. TXT x19220
f. TXT x19221
f. TXT x19222
f. TXT x19223
f. TXT x19224
f. TXT x19225
f. TXT x19226
f. TXT x19227
f. TXT x19228
f. TXT x19229
f. TXT x19230
f. TXT x19231
f. TXT x19232
f. TXT x19233
f. TXT x19234
f. TXT x19235
f. TXT x19236
f. TXT x19237
f. TXT x19238
f. TXT x19239
f. TXT x19240
f. TXT x19241
f. TXT x19242
f. TXT x19243
f. TXT x19244
f. TXT x19245
f. TXT x19246
f. TXT x19247
f. TXT x19248
f. TXT x19249
f. TXT x19250
f. TXT x19251
f. TXT x19252
f. TXT x19253
f. TXT x19254
f. TXT x19255
f. TXT x19256
f. TXT x19257
f. TXT x19258
f. TXT x19259
f. TXT x19260
f. TXT x19261
f. TXT x19262
f. TXT x19263
@ A -xx bx *y
f. TXT x19265
f. TXT x19266
f. TXT x19267
f. TXT x19268
f. TXT x19269
f. TXT x19270
f. TXT x19271
f. TXT x19272
f. TXT x19273
f. TXT x19274
f. TXT x19275
f. TXT x19276
f. TXT x19277
f. TXT x19278
f. TXT x19279
f. TXT x19280
f. TXT x19281
f. TXT x19282
f. TXT x19283
f. TXT x19284
f. TXT x19285
f. TXT x19286
f. TXT x19287
f. TXT x19288
f. TXT x19289
f. TXT x19290
f. TXT x19291
f. TXT x19292
f. TXT x19293
f. TXT x19294
f. TXT x19295
f. TXT x19296
f. TXT x19297
f. TXT x19298
f. TXT x19299
f. TXT x19300
f. TXT x19301
f. TXT x19302
f. TXT x19303
f. TXT x19304
f. TXT x19305
f. TXT x19306
f. TXT x19307
f. TXT x19308
f. TXT x19309
f. TXT x19310
f. TXT x19311
f. TXT x19312
f. TXT x19313
f. TXT x19314
f. TXT x19315
f. TXT x19316
f. TXT x19317
f. TXT x19318
f. TXT x19319
f. TXT x19320
f. TXT x19321
f. TXT x19322
f. TXT x19323
f. TXT x19324
f. TXT x19325
f. TXT x19326
f. TXT x19327
$TTL 13277
f. TXT x19329
f. TXT x19330
f. TXT x19331
f. TXT x19332
f. TXT x19333
f. TXT x19334
f. TXT x19335
f. TXT x19336
f. TXT x19337
f. TXT x19338
f. TXT x19339
f. TXT x19340
f. TXT x19341
f. TXT x19342
f. TXT x19343
f. TXT x19344
f. TXT x19345
f. TXT x19346
f. TXT x19347
f. TXT x19348
f. TXT x19349
f. TXT x19350
f. TXT x19351
f. TXT x19352
f. TXT x19353
f. TXT x19354
f. TXT x19355
f. TXT x19356
f. TXT x19357
f. TXT x19358
f. TXT x19359
f. TXT x19360
f. TXT x19361
f. TXT x19362
f. TXT x19363
f. TXT x19364
f. TXT x19365
f. TXT x19366
f. TXT x19367
f. TXT x19368
f. TXT x19369
f. TXT x19370
f. TXT x19371
f. TXT x19372
f. TXT x19373
f. TXT x19374
f. TXT x19375
f. TXT x19376
f. TXT x19377
f. TXT x19378
f. TXT x19379
f. TXT x19380
f. TXT x19381
f. TXT x19382
f. TXT x19383
f. TXT x19384
f. TXT x19385
f. TXT x19386
f. TXT x19387
f. TXT x19388
f. TXT x19389
f. TXT x19390
f. TXT x19391
$ORIGIN aayx.b.
f. TXT x19393
f. TXT x19394
f. TXT x19395
f. TXT x19396
f. TXT x19397
f. TXT x19398
f. TXT x19399
f. TXT x19400
f. TXT x19401
f. TXT x19402
f. TXT x19403
f. TXT x19404
f. TXT x19405
f. TXT x19406
f. TXT x19407
f. TXT x19408
f. TXT x19409
f. TXT x19410
f. TXT x19411
f. TXT x19412
f. TXT x19413
f. TXT x19414
f. TXT x19415
f. TXT x19416
f. TXT x19417
f. TXT x19418
f. TXT x19419
f. TXT x19420
f. TXT x19421
f. TXT x19422
f. TXT x19423
f. TXT x19424
f. TXT x19425
f. TXT x19426
f. TXT x19427
f. TXT x19428
f. TXT x19429
f. TXT x19430
f. TXT x19431
f. TXT x19432
f. TXT x19433
f. TXT x19434
f. TXT x19435
f. TXT x19436
f. TXT x19437
f. TXT x19438
f. TXT x19439
f. TXT x19440
f. TXT x19441
f. TXT x19442
f. TXT x19443
f. TXT x19444
f. TXT x19445
f. TXT x19446
f. TXT x19447
f. TXT x19448
f. TXT x19449
f. TXT x19450
f. TXT x19451
f. TXT x19452
f. TXT x19453
f. TXT x19454
f. TXT x19455
*bc.by. TXT x0
f. TXT x19457
f. TXT x19458
f. TXT x19459
f. TXT x19460
f. TXT x19461
f. TXT x19462
f. TXT x19463
f. TXT x19464
f. TXT x19465
f. TXT x19466
f. TXT x19467
f. TXT x19468
f. TXT x19469
f. TXT x19470
f. TXT x19471
f. TXT x19472
f. TXT x19473
f. TXT x19474
f. TXT x19475
f. TXT x19476
f. TXT x19477
f. TXT x19478
f. TXT x19479
f. TXT x19480
f. TXT x19481
f. TXT x19482
f. TXT x19483
f. TXT x19484
f. TXT x19485
f. TXT x19486
f. TXT x19487
f. TXT x19488
f. TXT x19489
f. TXT x19490
f. TXT x19491
f. TXT x19492
f. TXT x19493
f. TXT x19494
f. TXT x19495
f. TXT x19496
f. TXT x19497
f. TXT x19498
f. TXT x19499
f. TXT x19500
f. TXT x19501
f. TXT x19502
f. TXT x19503
f. TXT x19504
f. TXT x19505
f. TXT x19506
f. TXT x19507
f. TXT x19508
f. TXT x19509
f. TXT x19510
f. TXT x19511
f. TXT x19512
f. TXT x19513
f. TXT x19514
f. TXT x19515
f. TXT x19516
f. TXT x19517
f. TXT x19518
f. TXT x19519
 A *aax
f. TXT x19521
f. TXT x19522
f. TXT x19523
f. TXT x19524
f. TXT x19525
f. TXT x19526
f. TXT x19527
f. TXT x19528
f. TXT x19529
f. TXT x19530
f. TXT x19531
f. TXT x19532
f. TXT x19533
f. TXT x19534
f. TXT x19535
f. TXT x19536
f. TXT x19537
f. TXT x19538
f. TXT x19539
f. TXT x19540
f. TXT x19541
f. TXT x19542
f. TXT x19543
f. TXT x19544
f. TXT x19545
f. TXT x19546
f. TXT x19547
f. TXT x19548
f. TXT x19549
f. TXT x19550
f. TXT x19551
f. TXT x19552
f. TXT x19553
f. TXT x19554
f. TXT x19555
f. TXT x19556
f. TXT x19557
f. TXT x19558
f. TXT x19559
f. TXT x19560
f. TXT x19561
f. TXT x19562
f. TXT x19563
f. TXT x19564
f. TXT x19565
f. TXT x19566
f. TXT x19567
f. TXT x19568
f. TXT x19569
f. TXT x19570
f. TXT x19571
f. TXT x19572
f. TXT x19573
f. TXT x19574
f. TXT x19575
f. TXT x19576
f. TXT x19577
f. TXT x19578
f. TXT x19579
f. TXT x19580
f. TXT x19581
f. TXT x19582
f. TXT x19583
 A y*a z -y0a
f. TXT x19585
f. TXT x19586
f. TXT x19587
f. TXT x19588
f. TXT x19589
f. TXT x19590
f. TXT x19591
f. TXT x19592
f. TXT x19593
f. TXT x19594
f. TXT x19595
f. TXT x19596
f. TXT x19597
f. TXT x19598
f. TXT x19599
f. TXT x19600
f. TXT x19601
f. TXT x19602
f. TXT x19603
f. TXT x19604
f. TXT x19605
f. TXT x19606
f. TXT x19607
f. TXT x19608
f. TXT x19609
f. TXT x19610
f. TXT x19611
f. TXT x19612
f. TXT x19613
f. TXT x19614
f. TXT x19615
f. TXT x19616
f. TXT x19617
f. TXT x19618
f. TXT x19619
f. TXT x19620
f. TXT x19621
f. TXT x19622
f. TXT x19623
f. TXT x19624
f. TXT x19625
f. TXT x19626
f. TXT x19627
f. TXT x19628
f. TXT x19629
f. TXT x19630
f. TXT x19631
f. TXT x19632
f. TXT x19633
f. TXT x19634
f. TXT x19635
f. TXT x19636
f. TXT x19637
f. TXT x19638
f. TXT x19639
f. TXT x19640
f. TXT x19641
f. TXT x19642
f. TXT x19643
f. TXT x19644
f. TXT x19645
f. TXT x19646
f. TXT x19647
c A c-y- a-x
f. TXT x19649
f. TXT x19650
f. TXT x19651
f. TXT x19652
f. TXT x19653
f. TXT x19654
f. TXT x19655
f. TXT x19656
f. TXT x19657
f. TXT x19658
f. TXT x19659
f. TXT x19660
f. TXT x19661
f. TXT x19662
f. TXT x19663
f. TXT x19664
f. TXT x19665
f. TXT x19666
f. TXT x19667
f. TXT x19668
f. TXT x19669
f. TXT x19670
f. TXT x19671
f. TXT x19672
f. TXT x19673
f. TXT x19674
f. TXT x19675
f. TXT x19676
f. TXT x19677
f. TXT x19678
f. TXT x19679
f. TXT x19680
f. TXT x19681
f. TXT x19682
f. TXT x19683
f. TXT x19684
f. TXT x19685
f. TXT x19686
f. TXT x19687
f. TXT x19688
f. TXT x19689
f. TXT x19690
f. TXT x19691
f. TXT x19692
f. TXT x19693
f. TXT x19694
f. TXT x19695
f. TXT x19696
f. TXT x19697
f. TXT x19698
f. TXT x19699
f. TXT x19700
f. TXT x19701
f. TXT x19702
f. TXT x19703
f. TXT x19704
f. TXT x19705
f. TXT x19706
f. TXT x19707
f. TXT x19708
f. TXT x19709
f. TXT x19710
f. TXT x19711
- TXT z b zxx
f. TXT x19713
f. TXT x19714
f. TXT x19715
f. TXT x19716
f. TXT x19717
f. TXT x19718
f. TXT x19719
f. TXT x19720
f. TXT x19721
f. TXT x19722
f. TXT x19723
f. TXT x19724
f. TXT x19725
f. TXT x19726
f. TXT x19727
f. TXT x19728
f. TXT x19729
f. TXT x19730
f. TXT x19731
f. TXT x19732
f. TXT x19733
f. TXT x19734
f. TXT x19735
f. TXT x19736
f. TXT x19737
f. TXT x19738
f. TXT x19739
f. TXT x19740
f. TXT x19741
f. TXT x19742
f. TXT x19743
f. TXT x19744
f. TXT x19745
f. TXT x19746
f. TXT x19747
f. TXT x19748
f. TXT x19749
f. TXT x19750
f. TXT x19751
f. TXT x19752
f. TXT x19753
f. TXT x19754
f. TXT x19755
f. TXT x19756
f. TXT x19757
f. TXT x19758
f. TXT x19759
f. TXT x19760
f. TXT x19761
f. TXT x19762
f. TXT x19763
f. TXT x19764
f. TXT x19765
f. TXT x19766
f. TXT x19767
f. TXT x19768
f. TXT x19769
f. TXT x19770
f. TXT x19771
f. TXT x19772
f. TXT x19773
f. TXT x19774
f. TXT x19775
$TTL 2334892
f. TXT x19777
f. TXT x19778
f. TXT x19779
f. TXT x19780
f. TXT x19781
f. TXT x19782
f. TXT x19783
f. TXT x19784
f. TXT x19785
f. TXT x19786
f. TXT x19787
f. TXT x19788
f. TXT x19789
f. TXT x19790
f. TXT x19791
f. TXT x19792
f. TXT x19793
f. TXT x19794
f. TXT x19795
f. TXT x19796
f. TXT x19797
f. TXT x19798
f. TXT x19799
f. TXT x19800
f. TXT x19801
f. TXT x19802
f. TXT x19803
f. TXT x19804
f. TXT x19805
f. TXT x19806
f. TXT x19807
f. TXT x19808
f. TXT x19809
f. TXT x19810
f. TXT x19811
f. TXT x19812
f. TXT x19813
f. TXT x19814
f. TXT x19815
f. TXT x19816
f. TXT x19817
f. TXT x19818
f. TXT x19819
f. TXT x19820
f. TXT x19821
f. TXT x19822
f. TXT x19823
f. TXT x19824
f. TXT x19825
f. TXT x19826
f. TXT x19827
f. TXT x19828
f. TXT x19829
f. TXT x19830
f. TXT x19831
f. TXT x19832
f. TXT x19833
f. TXT x19834
f. TXT x19835
f. TXT x19836
f. TXT x19837
f. TXT x19838
f. TXT x19839

f. TXT x19841
f. TXT x19842
f. TXT x19843
f. TXT x19844
f. TXT x19845
f. TXT x19846
f. TXT x19847
f. TXT x19848
f. TXT x19849
f. TXT x19850
f. TXT x19851
f. TXT x19852
f. TXT x19853
f. TXT x19854
f. TXT x19855
f. TXT x19856
f. TXT x19857
f. TXT x19858
f. TXT x19859
f. TXT x19860
f. TXT x19861
f. TXT x19862
f. TXT x19863
f. TXT x19864
f. TXT x19865
f. TXT x19866
f. TXT x19867
f. TXT x19868
f. TXT x19869
f. TXT x19870
f. TXT x19871
f. TXT x19872
f. TXT x19873
f. TXT x19874
f. TXT x19875
f. TXT x19876
f. TXT x19877
f. TXT x19878
f. TXT x19879
f. TXT x19880
f. TXT x19881
f. TXT x19882
f. TXT x19883
f. TXT x19884
f. TXT x19885
f. TXT x19886
f. TXT x19887
f. TXT x19888
f. TXT x19889
f. TXT x19890
f. TXT x19891
f. TXT x19892
f. TXT x19893
f. TXT x19894
f. TXT x19895
f. TXT x19896
f. TXT x19897
f. TXT x19898
f. TXT x19899
f. TXT x19900
f. TXT x19901
f. TXT x19902
f. TXT x19903
$TTL 2147483648
f. TXT x19905
f. TXT x19906
f. TXT x19907
f. TXT x19908
f. TXT x19909
f. TXT x19910
f. TXT x19911
f. TXT x19912
f. TXT x19913
f. TXT x19914
f. TXT x19915
f. TXT x19916
f. TXT x19917
f. TXT x19918
f. TXT x19919
f. TXT x19920
f. TXT x19921
f. TXT x19922
f. TXT x19923
f. TXT x19924
f. TXT x19925
f. TXT x19926
f. TXT x19927
f. TXT x19928
f. TXT x19929
f. TXT x19930
f. TXT x19931
f. TXT x19932
f. TXT x19933
f. TXT x19934
f. TXT x19935
f. TXT x19936
f. TXT x19937
f. TXT x19938
f. TXT x19939
f. TXT x19940
f. TXT x19941
f. TXT x19942
f. TXT x19943
f. TXT x19944
f. TXT x19945
f. TXT x19946
f. TXT x19947
f. TXT x19948
f. TXT x19949
f. TXT x19950
f. TXT x19951
f. TXT x19952
f. TXT x19953
f. TXT x19954
f. TXT x19955
f. TXT x19956
f. TXT x19957
f. TXT x19958
f. TXT x19959
f. TXT x19960
f. TXT x19961
f. TXT x19962
f. TXT x19963
f. TXT x19964
f. TXT x19965
f. TXT x19966
f. TXT x19967
$ORIGIN cx-*.
f. TXT x19969
f. TXT x19970
f. TXT x19971
f. TXT x19972
f. TXT x19973
f. TXT x19974
f. TXT x19975
f. TXT x19976
f. TXT x19977
f. TXT x19978
f. TXT x19979
f. TXT x19980
f. TXT x19981
f. TXT x19982
f. TXT x19983
f. TXT x19984
f. TXT x19985
f. TXT x19986
f. TXT x19987
f. TXT x19988
f. TXT x19989
f. TXT x19990
f. TXT x19991
f. TXT x19992
f. TXT x19993
f. TXT x19994
f. TXT x19995
f. TXT x19996
f. TXT x19997
f. TXT x19998
f. TXT x19999
f. TXT x20000
f. TXT x20001
f. TXT x20002
f. TXT x20003
f. TXT x20004
f. TXT x20005
f. TXT x20006
f. TXT x20007
f. TXT x20008
f. TXT x20009
f. TXT x20010
f. TXT x20011
f. TXT x20012
f. TXT x20013
f. TXT x20014
f. TXT x20015
f. TXT x20016
f. TXT x20017
f. TXT x20018
f. TXT x20019
f. TXT x20020
f. TXT x20021
f. TXT x20022
f. TXT x20023
f. TXT x20024
f. TXT x20025
f. TXT x20026
f. TXT x20027
f. TXT x20028
f. TXT x20029
f. TXT x20030
f. TXT x20031
$TTL 3999559940
f. TXT x20033
f. TXT x20034
f. TXT x20035
f. TXT x20036
f. TXT x20037
f. TXT x20038
f. TXT x20039
f. TXT x20040
f. TXT x20041
f. TXT x20042
f. TXT x20043
f. TXT x20044
f. TXT x20045
f. TXT x20046
f. TXT x20047
f. TXT x20048
f. TXT x20049
f. TXT x20050
f. TXT x20051
f. TXT x20052
f. TXT x20053
f. TXT x20054
f. TXT x20055
f. TXT x20056
f. TXT x20057
f. TXT x20058
f. TXT x20059
f. TXT x20060
f. TXT x20061
f. TXT x20062
f. TXT x20063
f. TXT x20064
f. TXT x20065
f. TXT x20066
f. TXT x20067
f. TXT x20068
f. TXT x20069
f. TXT x20070
f. TXT x20071
f. TXT x20072
f. TXT x20073
f. TXT x20074
f. TXT x20075
f. TXT x20076
f. TXT x20077
f. TXT x20078
f. TXT x20079
f. TXT x20080
f. TXT x20081
f. TXT x20082
f. TXT x20083
f. TXT x20084
f. TXT x20085
f. TXT x20086
f. TXT x20087
f. TXT x20088
f. TXT x20089
f. TXT x20090
f. TXT x20091
f. TXT x20092
f. TXT x20093
f. TXT x20094
f. TXT x20095
 A z
f. TXT x20097
f. TXT x20098
f. TXT x20099
f. TXT x20100
f. TXT x20101
f. TXT x20102
f. TXT x20103
f. TXT x20104
f. TXT x20105
f. TXT x20106
f. TXT x20107
f. TXT x20108
f. TXT x20109
f. TXT x20110
f. TXT x20111
f. TXT x20112
f. TXT x20113
f. TXT x20114
f. TXT x20115
f. TXT x20116
f. TXT x20117
f. TXT x20118
f. TXT x20119
f. TXT x20120
f. TXT x20121
f. TXT x20122
f. TXT x20123
f. TXT x20124
f. TXT x20125
f. TXT x20126
f. TXT x20127
f. TXT x20128
f. TXT x20129
f. TXT x20130
f. TXT x20131
f. TXT x20132
f. TXT x20133
f. TXT x20134
f. TXT x20135
f. TXT x20136
f. TXT x20137
f. TXT x20138
f. TXT x20139
f. TXT x20140
f. TXT x20141
f. TXT x20142
f. TXT x20143
f. TXT x20144
f. TXT x20145
f. TXT x20146
f. TXT x20147
f. TXT x20148
f. TXT x20149
f. TXT x20150
f. TXT x20151
f. TXT x20152
f. TXT x20153
f. TXT x20154
f. TXT x20155
f. TXT x20156
f. TXT x20157
f. TXT x20158
f. TXT x20159
a- TXT cz0
f. TXT x20161
f. TXT x20162
f. TXT x20163
f. TXT x20164
f. TXT x20165
f. TXT x20166
f. TXT x20167
f. TXT x20168
f. TXT x20169
f. TXT x20170
f. TXT x20171
f. TXT x20172
f. TXT x20173
f. TXT x20174
f. TXT x20175
f. TXT x20176
f. TXT x20177
f. TXT x20178
f. TXT x20179
f. TXT x20180
f. TXT x20181
f. TXT x20182
f. TXT x20183
f. TXT x20184
f. TXT x20185
f. TXT x20186
f. TXT x20187
f. TXT x20188
f. TXT x20189
f. TXT x20190
f. TXT x20191
f. TXT x20192
f. TXT x20193
f. TXT x20194
f. TXT x20195
f. TXT x20196
f. TXT x20197
f. TXT x20198
f. TXT x20199
f. TXT x20200
f. TXT x20201
f. TXT x20202
f. TXT x20203
f. TXT x20204
f. TXT x20205
f. TXT x20206
f. TXT x20207
f. TXT x20208
f. TXT x20209
f. TXT x20210
f. TXT x20211
f. TXT x20212
f. TXT x20213
f. TXT x20214
f. TXT x20215
f. TXT x20216
f. TXT x20217
f. TXT x20218
f. TXT x20219
f. TXT x20220
f. TXT x20221
f. TXT x20222
f. TXT x20223
@ TXT bbcc caxa
f. TXT x20225
f. TXT x20226
f. TXT x20227
f. TXT x20228
f. TXT x20229
f. TXT x20230
f. TXT x20231
f. TXT x20232
f. TXT x20233
f. TXT x20234
f. TXT x20235
f. TXT x20236
f. TXT x20237
f. TXT x20238
f. TXT x20239
f. TXT x20240
f. TXT x20241
f. TXT x20242
f. TXT x20243
f. TXT x20244
f. TXT x20245
f. TXT x20246
f. TXT x20247
f. TXT x20248
f. TXT x20249
f. TXT x20250
f. TXT x20251
f. TXT x20252
f. TXT x20253
f. TXT x20254
f. TXT x20255
f. TXT x20256
f. TXT x20257
f. TXT x20258
f. TXT x20259
f. TXT x20260
f. TXT x20261
f. TXT x20262
f. TXT x20263
f. TXT x20264
f. TXT x20265
f. TXT x20266
f. TXT x20267
f. TXT x20268
f. TXT x20269
f. TXT x20270
f. TXT x20271
f. TXT x20272
f. TXT x20273
f. TXT x20274
f. TXT x20275
f. TXT x20276
f. TXT x20277
f. TXT x20278
f. TXT x20279
f. TXT x20280
f. TXT x20281
f. TXT x20282
f. TXT x20283
f. TXT x20284
f. TXT x20285
f. TXT x20286
f. TXT x20287
c TXT -b -c-x
f. TXT x20289
f. TXT x20290
f. TXT x20291
f. TXT x20292
f. TXT x20293
f. TXT x20294
f. TXT x20295
f. TXT x20296
f. TXT x20297
f. TXT x20298
f. TXT x20299
f. TXT x20300
f. TXT x20301
f. TXT x20302
f. TXT x20303
f. TXT x20304
f. TXT x20305
f. TXT x20306
f. TXT x20307
f. TXT x20308
f. TXT x20309
f. TXT x20310
f. TXT x20311
f. TXT x20312
f. TXT x20313
f. TXT x20314
f. TXT x20315
f. TXT x20316
f. TXT x20317
f. TXT x20318
f. TXT x20319
f. TXT x20320
f. TXT x20321
f. TXT x20322
f. TXT x20323
f. TXT x20324
f. TXT x20325
f. TXT x20326
f. TXT x20327
f. TXT x20328
f. TXT x20329
f. TXT x20330
f. TXT x20331
f. TXT x20332
f. TXT x20333
f. TXT x20334
f. TXT x20335
f. TXT x20336
f. TXT x20337
f. TXT x20338
f. TXT x20339
f. TXT x20340
f. TXT x20341
f. TXT x20342
f. TXT x20343
f. TXT x20344
f. TXT x20345
f. TXT x20346
f. TXT x20347
f. TXT x20348
f. TXT x20349
f. TXT x20350
f. TXT x20351
ycx.zby. A zbyx *-c a0c
f. TXT x20353
f. TXT x20354
f. TXT x20355
f. TXT x20356
f. TXT x20357
f. TXT x20358
f. TXT x20359
f. TXT x20360
f. TXT x20361
f. TXT x20362
f. TXT x20363
f. TXT x20364
f. TXT x20365
f. TXT x20366
f. TXT x20367
f. TXT x20368
f. TXT x20369
f. TXT x20370
f. TXT x20371
f. TXT x20372
f. TXT x20373
f. TXT x20374
f. TXT x20375
f. TXT x20376
f. TXT x20377
f. TXT x20378
f. TXT x20379
f. TXT x20380
f. TXT x20381
f. TXT x20382
f. TXT x20383
f. TXT x20384
f. TXT x20385
f. TXT x20386
f. TXT x20387
f. TXT x20388
f. TXT x20389
f. TXT x20390
f. TXT x20391
f. TXT x20392
f. TXT x20393
f. TXT x20394
f. TXT x20395
f. TXT x20396
f. TXT x20397
f. TXT x20398
f. TXT x20399
f. TXT x20400
f. TXT x20401
f. TXT x20402
f. TXT x20403
f. TXT x20404
f. TXT x20405
f. TXT x20406
f. TXT x20407
f. TXT x20408
f. TXT x20409
f. TXT x20410
f. TXT x20411
f. TXT x20412
f. TXT x20413
f. TXT x20414
f. TXT x20415
 TXT xb 0c
f. TXT x20417
f. TXT x20418
f. TXT x20419
f. TXT x20420
f. TXT x20421
f. TXT x20422
f. TXT x20423
f. TXT x20424
f. TXT x20425
f. TXT x20426
f. TXT x20427
f. TXT x20428
f. TXT x20429
f. TXT x20430
f. TXT x20431
f. TXT x20432
f. TXT x20433
f. TXT x20434
f. TXT x20435
f. TXT x20436
f. TXT x20437
f. TXT x20438
f. TXT x20439
f. TXT x20440
f. TXT x20441
f. TXT x20442
f. TXT x20443
f. TXT x20444
f. TXT x20445
f. TXT x20446
f. TXT x20447
f. TXT x20448
f. TXT x20449
f. TXT x20450
f. TXT x20451
f. TXT x20452
f. TXT x20453
f. TXT x20454
f. TXT x20455
f. TXT x20456
f. TXT x20457
f. TXT x20458
f. TXT x20459
f. TXT x20460
f. TXT x20461
f. TXT x20462
f. TXT x20463
f. TXT x20464
f. TXT x20465
f. TXT x20466
f. TXT x20467
f. TXT x20468
f. TXT x20469
f. TXT x20470
f. TXT x20471
f. TXT x20472
f. TXT x20473
f. TXT x20474
f. TXT x20475
f. TXT x20476
f. TXT x20477
f. TXT x20478
f. TXT x20479

f. TXT x20481
f. TXT x20482
f. TXT x20483
f. TXT x20484
f. TXT x20485
f. TXT x20486
f. TXT x20487
f. TXT x20488
f. TXT x20489
f. TXT x20490
f. TXT x20491
f. TXT x20492
f. TXT x20493
f. TXT x20494
f. TXT x20495
f. TXT x20496
f. TXT x20497
f. TXT x20498
f. TXT x20499
f. TXT x20500
f. TXT x20501
f. TXT x20502
f. TXT x20503
f. TXT x20504
f. TXT x20505
f. TXT x20506
f. TXT x20507
f. TXT x20508
f. TXT x20509
f. TXT x20510
f. TXT x20511
f. TXT x20512
f. TXT x20513
f. TXT x20514
f. TXT x20515
f. TXT x20516
f. TXT x20517
f. TXT x20518
f. TXT x20519
f. TXT x20520
f. TXT x20521
f. TXT x20522
f. TXT x20523
f. TXT x20524
f. TXT x20525
f. TXT x20526
f. TXT x20527
f. TXT x20528
f. TXT x20529
f. TXT x20530
f. TXT x20531
f. TXT x20532
f. TXT x20533
f. TXT x20534
f. TXT x20535
f. TXT x20536
f. TXT x20537
f. TXT x20538
f. TXT x20539
f. TXT x20540
f. TXT x20541
f. TXT x20542
f. TXT x20543
$TTL 2147483648
f. TXT x20545
f. TXT x20546
f. TXT x20547
f. TXT x20548
f. TXT x20549
f. TXT x20550
f. TXT x20551
f. TXT x20552
f. TXT x20553
f. TXT x20554
f. TXT x20555
f. TXT x20556
f. TXT x20557
f. TXT x20558
f. TXT x20559
f. TXT x20560
f. TXT x20561
f. TXT x20562
f. TXT x20563
f. TXT x20564
f. TXT x20565
f. TXT x20566
f. TXT x20567
f. TXT x20568
f. TXT x20569
f. TXT x20570
f. TXT x20571
f. TXT x20572
f. TXT x20573
f. TXT x20574
f. TXT x20575
f. TXT x20576
f. TXT x20577
f. TXT x20578
f. TXT x20579
f. TXT x20580
f. TXT x20581
f. TXT x20582
f. TXT x20583
f. TXT x20584
f. TXT x20585
f. TXT x20586
f. TXT x20587
f. TXT x20588
f. TXT x20589
f. TXT x20590
f. TXT x20591
f. TXT x20592
f. TXT x20593
f. TXT x20594
f. TXT x20595
f. TXT x20596
f. TXT x20597
f. TXT x20598
f. TXT x20599
f. TXT x20600
f. TXT x20601
f. TXT x20602
f. TXT x20603
f. TXT x20604
f. TXT x20605
f. TXT x20606
f. TXT x20607
 NS ab0z
f. TXT x20609
f. TXT x20610
f. TXT x20611
f. TXT x20612
f. TXT x20613
f. TXT x20614
f. TXT x20615
f. TXT x20616
f. TXT x20617
f. TXT x20618
f. TXT x20619
f. TXT x20620
f. TXT x20621
f. TXT x20622
f. TXT x20623
f. TXT x20624
f. TXT x20625
f. TXT x20626
f. TXT x20627
f. TXT x20628
f. TXT x20629
f. TXT x20630
f. TXT x20631
f. TXT x20632
f. TXT x20633
f. TXT x20634
f. TXT x20635
f. TXT x20636
f. TXT x20637
f. TXT x20638
f. TXT x20639
f. TXT x20640
f. TXT x20641
f. TXT x20642
f. TXT x20643
f. TXT x20644
f. TXT x20645
f. TXT x20646
f. TXT x20647
f. TXT x20648
f. TXT x20649
f. TXT x20650
f. TXT x20651
f. TXT x20652
f. TXT x20653
f. TXT x20654
f. TXT x20655
f. TXT x20656
f. TXT x20657
f. TXT x20658
f. TXT x20659
f. TXT x20660
f. TXT x20661
f. TXT x20662
f. TXT x20663
f. TXT x20664
f. TXT x20665
f. TXT x20666
f. TXT x20667
f. TXT x20668
f. TXT x20669
f. TXT x20670
f. TXT x20671
$ORIGIN 0.xy.
f. TXT x20673
f. TXT x20674
f. TXT x20675
f. TXT x20676
f. TXT x20677
f. TXT x20678
f. TXT x20679
f. TXT x20680
f. TXT x20681
f. TXT x20682
f. TXT x20683
f. TXT x20684
f. TXT x20685
f. TXT x20686
f. TXT x20687
f. TXT x20688
f. TXT x20689
f. TXT x20690
f. TXT x20691
f. TXT x20692
f. TXT x20693
f. TXT x20694
f. TXT x20695
f. TXT x20696
f. TXT x20697
f. TXT x20698
f. TXT x20699
f. TXT x20700
f. TXT x20701
f. TXT x20702
f. TXT x20703
f. TXT x20704
f. TXT x20705
f. TXT x20706
f. TXT x20707
f. TXT x20708
f. TXT x20709
f. TXT x20710
f. TXT x20711
f. TXT x20712
f. TXT x20713
f. TXT x20714
f. TXT x20715
f. TXT x20716
f. TXT x20717
f. TXT x20718
f. TXT x20719
f. TXT x20720
f. TXT x20721
f. TXT x20722
f. TXT x20723
f. TXT x20724
f. TXT x20725
f. TXT x20726
f. TXT x20727
f. TXT x20728
f. TXT x20729
f. TXT x20730
f. TXT x20731
f. TXT x20732
f. TXT x20733
f. TXT x20734
f. TXT x20735
a.x*-. A -cyz bb*y y
f. TXT x20737
f. TXT x20738
f. TXT x20739
f. TXT x20740
f. TXT x20741
f. TXT x20742
f. TXT x20743
f. TXT x20744
f. TXT x20745
f. TXT x20746
f. TXT x20747
f. TXT x20748
f. TXT x20749
f. TXT x20750
f. TXT x20751
f. TXT x20752
f. TXT x20753
f. TXT x20754
f. TXT x20755
f. TXT x20756
f. TXT x20757
f. TXT x20758
f. TXT x20759
f. TXT x20760
f. TXT x20761
f. TXT x20762
f. TXT x20763
f. TXT x20764
f. TXT x20765
f. TXT x20766
f. TXT x20767
f. TXT x20768
f. TXT x20769
f. TXT x20770
f. TXT x20771
f. TXT x20772
f. TXT x20773
f. TXT x20774
f. TXT x20775
f. TXT x20776
f. TXT x20777
f. TXT x20778
f. TXT x20779
f. TXT x20780
f. TXT x20781
f. TXT x20782
f. TXT x20783
f. TXT x20784
f. TXT x20785
f. TXT x20786
f. TXT x20787
f. TXT x20788
f. TXT x20789
f. TXT x20790
f. TXT x20791
f. TXT x20792
f. TXT x20793
f. TXT x20794
f. TXT x20795
f. TXT x20796
f. TXT x20797
f. TXT x20798
f. TXT x20799
; x**x
f. TXT x20801
f. TXT x20802
f. TXT x20803
f. TXT x20804
f. TXT x20805
f. TXT x20806
f. TXT x20807
f. TXT x20808
f. TXT x20809
f. TXT x20810
f. TXT x20811
f. TXT x20812
f. TXT x20813
f. TXT x20814
f. TXT x20815
f. TXT x20816
f. TXT x20817
f. TXT x20818
f. TXT x20819
f. TXT x20820
f. TXT x20821
f. TXT x20822
f. TXT x20823
f. TXT x20824
f. TXT x20825
f. TXT x20826
f. TXT x20827
f. TXT x20828
f. TXT x20829
f. TXT x20830
f. TXT x20831
f. TXT x20832
f. TXT x20833
f. TXT x20834
f. TXT x20835
f. TXT x20836
f. TXT x20837
f. TXT x20838
f. TXT x20839
f. TXT x20840
f. TXT x20841
f. TXT x20842
f. TXT x20843
f. TXT x20844
f. TXT x20845
f. TXT x20846
f. TXT x20847
f. TXT x20848
f. TXT x20849
f. TXT x20850
f. TXT x20851
f. TXT x20852
f. TXT x20853
f. TXT x20854
f. TXT x20855
f. TXT x20856
f. TXT x20857
f. TXT x20858
f. TXT x20859
f. TXT x20860
f. TXT x20861
f. TXT x20862
f. TXT x20863
 NS *y -b *xx
f. TXT x20865
f. TXT x20866
f. TXT x20867
f. TXT x20868
f. TXT x20869
f. TXT x20870
f. TXT x20871
f. TXT x20872
f. TXT x20873
f. TXT x20874
f. TXT x20875
f. TXT x20876
f. TXT x20877
f. TXT x20878
f. TXT x20879
f. TXT x20880
f. TXT x20881
f. TXT x20882
f. TXT x20883
f. TXT x20884
f. TXT x20885
f. TXT x20886
f. TXT x20887
f. TXT x20888
f. TXT x20889
f. TXT x20890
f. TXT x20891
f. TXT x20892
f. TXT x20893
f. TXT x20894
f. TXT x20895
f. TXT x20896
f. TXT x20897
f. TXT x20898
f. TXT x20899
f. TXT x20900
f. TXT x20901
f. TXT x20902
f. TXT x20903
f. TXT x20904
f. TXT x20905
f. TXT x20906
f. TXT x20907
f. TXT x20908
f. TXT x20909
f. TXT x20910
f. TXT x20911
f. TXT x20912
f. TXT x20913
f. TXT x20914
f. TXT x20915
f. TXT x20916
f. TXT x20917
f. TXT x20918
f. TXT x20919
f. TXT x20920
f. TXT x20921
f. TXT x20922
f. TXT x20923
f. TXT x20924
f. TXT x20925
f. TXT x20926
f. TXT x20927
c-.b*. TXT x*0a za*z
f. TXT x20929
f. TXT x20930
f. TXT x20931
f. TXT x20932
f. TXT x20933
f. TXT x20934
f. TXT x20935
f. TXT x20936
f. TXT x20937
f. TXT x20938
f. TXT x20939
f. TXT x20940
f. TXT x20941
f. TXT x20942
f. TXT x20943
f. TXT x20944
f. TXT x20945
f. TXT x20946
f. TXT x20947
f. TXT x20948
f. TXT x20949
f. TXT x20950
f. TXT x20951
f. TXT x20952
f. TXT x20953
f. TXT x20954
f. TXT x20955
f. TXT x20956
f. TXT x20957
f. TXT x20958
f. TXT x20959
f. TXT x20960
f. TXT x20961
f. TXT x20962
f. TXT x20963
f. TXT x20964
f. TXT x20965
f. TXT x20966
f. TXT x20967
f. TXT x20968
f. TXT x20969
f. TXT x20970
f. TXT x20971
f. TXT x20972
f. TXT x20973
f. TXT x20974
f. TXT x20975
f. TXT x20976
f. TXT x20977
f. TXT x20978
f. TXT x20979
f. TXT x20980
f. TXT x20981
f. TXT x20982
f. TXT x20983
f. TXT x20984
f. TXT x20985
f. TXT x20986
f. TXT x20987
f. TXT x20988
f. TXT x20989
f. TXT x20990
f. TXT x20991
 A yc* yy
f. TXT x20993
f. TXT x20994
f. TXT x20995
f. TXT x20996
f. TXT x20997
f. TXT x20998
f. TXT x20999
f. TXT x21000
f. TXT x21001
f. TXT x21002
f. TXT x21003
f. TXT x21004
f. TXT x21005
f. TXT x21006
f. TXT x21007
f. TXT x21008
f. TXT x21009
f. TXT x21010
f. TXT x21011
f. TXT x21012
f. TXT x21013
f. TXT x21014
f. TXT x21015
f. TXT x21016
f. TXT x21017
f. TXT x21018
f. TXT x21019
f. TXT x21020
f. TXT x21021
f. TXT x21022
f. TXT x21023
f. TXT x21024
f. TXT x21025
f. TXT x21026
f. TXT x21027
f. TXT x21028
f. TXT x21029
f. TXT x21030
f. TXT x21031
f. TXT x21032
f. TXT x21033
f. TXT x21034
f. TXT x21035
f. TXT x21036
f. TXT x21037
f. TXT x21038
f. TXT x21039
f. TXT x21040
f. TXT x21041
f. TXT x21042
f. TXT x21043
f. TXT x21044
f. TXT x21045
f. TXT x21046
f. TXT x21047
f. TXT x21048
f. TXT x21049
f. TXT x21050
f. TXT x21051
f. TXT x21052
f. TXT x21053
f. TXT x21054
f. TXT x21055
-- NS bby
f. TXT x21057
f. TXT x21058
f. TXT x21059
f. TXT x21060
f. TXT x21061
f. TXT x21062
f. TXT x21063
f. TXT x21064
f. TXT x21065
f. TXT x21066
f. TXT x21067
f. TXT x21068
f. TXT x21069
f. TXT x21070
f. TXT x21071
f. TXT x21072
f. TXT x21073
f. TXT x21074
f. TXT x21075
f. TXT x21076
f. TXT x21077
f. TXT x21078
f. TXT x21079
f. TXT x21080
f. TXT x21081
f. TXT x21082
f. TXT x21083
f. TXT x21084
f. TXT x21085
f. TXT x21086
f. TXT x21087
f. TXT x21088
f. TXT x21089
f. TXT x21090
f. TXT x21091
f. TXT x21092
f. TXT x21093
f. TXT x21094
f. TXT x21095
f. TXT x21096
f. TXT x21097
f. TXT x21098
f. TXT x21099
f. TXT x21100
f. TXT x21101
f. TXT x21102
f. TXT x21103
f. TXT x21104
f. TXT x21105
f. TXT x21106
f. TXT x21107
f. TXT x21108
f. TXT x21109
f. TXT x21110
f. TXT x21111
f. TXT x21112
f. TXT x21113
f. TXT x21114
f. TXT x21115
f. TXT x21116
f. TXT x21117
f. TXT x21118
f. TXT x21119
ca- TXT *x- *y* by
f. TXT x21121
f. TXT x21122
f. TXT x21123
f. TXT x21124
f. TXT x21125
f. TXT x21126
f. TXT x21127
f. TXT x21128
f. TXT x21129
f. TXT x21130
f. TXT x21131
f. TXT x21132
f. TXT x21133
f. TXT x21134
f. TXT x21135
f. TXT x21136
f. TXT x21137
f. TXT x21138
f. TXT x21139
f. TXT x21140
f. TXT x21141
f. TXT x21142
f. TXT x21143
f. TXT x21144
f. TXT x21145
f. TXT x21146
f. TXT x21147
f. TXT x21148
f. TXT x21149
f. TXT x21150
f. TXT x21151
f. TXT x21152
f. TXT x21153
f. TXT x21154
f. TXT x21155
f. TXT x21156
f. TXT x21157
f. TXT x21158
f. TXT x21159
f. TXT x21160
f. TXT x21161
f. TXT x21162
f. TXT x21163
f. TXT x21164
f. TXT x21165
f. TXT x21166
f. TXT x21167
f. TXT x21168
f. TXT x21169
f. TXT x21170
f. TXT x21171
f. TXT x21172
f. TXT x21173
f. TXT x21174
f. TXT x21175
f. TXT x21176
f. TXT x21177
f. TXT x21178
f. TXT x21179
f. TXT x21180
f. TXT x21181
f. TXT x21182
f. TXT x21183
zyb. NS 0
f. TXT x21185
f. TXT x21186
f. TXT x21187
f. TXT x21188
f. TXT x21189
f. TXT x21190
f. TXT x21191
f. TXT x21192
f. TXT x21193
f. TXT x21194
f. TXT x21195
f. TXT x21196
f. TXT x21197
f. TXT x21198
f. TXT x21199
f. TXT x21200
f. TXT x21201
f. TXT x21202
f. TXT x21203
f. TXT x21204
f. TXT x21205
f. TXT x21206
f. TXT x21207
f. TXT x21208
f. TXT x21209
f. TXT x21210
f. TXT x21211
f. TXT x21212
f. TXT x21213
f. TXT x21214
f. TXT x21215
f. TXT x21216
f. TXT x21217
f. TXT x21218
f. TXT x21219
f. TXT x21220
f. TXT x21221
f. TXT x21222
f. TXT x21223
f. TXT x21224
f. TXT x21225
f. TXT x21226
f. TXT x21227
f. TXT x21228
f. TXT x21229
f. TXT x21230
f. TXT x21231
f. TXT x21232
f. TXT x21233
f. TXT x21234
f. TXT x21235
f. TXT x21236
f. TXT x21237
f. TXT x21238
f. TXT x21239
f. TXT x21240
f. TXT x21241
f. TXT x21242
f. TXT x21243
f. TXT x21244
f. TXT x21245
f. TXT x21246
f. TXT x21247
-ay.xy0b. A * *aax
f. TXT x21249
f. TXT x21250
f. TXT x21251
f. TXT x21252
f. TXT x21253
f. TXT x21254
f. TXT x21255
f. TXT x21256
f. TXT x21257
f. TXT x21258
f. TXT x21259
f. TXT x21260
f. TXT x21261
f. TXT x21262
f. TXT x21263
f. TXT x21264
f. TXT x21265
f. TXT x21266
f. TXT x21267
f. TXT x21268
f. TXT x21269
f. TXT x21270
f. TXT x21271
f. TXT x21272
f. TXT x21273
f. TXT x21274
f. TXT x21275
f. TXT x21276
f. TXT x21277
f. TXT x21278
f. TXT x21279
f. TXT x21280
f. TXT x21281
f. TXT x21282
f. TXT x21283
f. TXT x21284
f. TXT x21285
f. TXT x21286
f. TXT x21287
f. TXT x21288
f. TXT x21289
f. TXT x21290
f. TXT x21291
f. TXT x21292
f. TXT x21293
f. TXT x21294
f. TXT x21295
f. TXT x21296
f. TXT x21297
f. TXT x21298
f. TXT x21299
f. TXT x21300
f. TXT x21301
f. TXT x21302
f. TXT x21303
f. TXT x21304
f. TXT x21305
f. TXT x21306
f. TXT x21307
f. TXT x21308
f. TXT x21309
f. TXT x21310
f. TXT x21311
 NS * az ca
f. TXT x21313
f. TXT x21314
f. TXT x21315
f. TXT x21316
f. TXT x21317
f. TXT x21318
f. TXT x21319
f. TXT x21320
f. TXT x21321
f. TXT x21322
f. TXT x21323
f. TXT x21324
f. TXT x21325
f. TXT x21326
f. TXT x21327
f. TXT x21328
f. TXT x21329
f. TXT x21330
f. TXT x21331
f. TXT x21332
f. TXT x21333
f. TXT x21334
f. TXT x21335
f. TXT x21336
f. TXT x21337
f. TXT x21338
f. TXT x21339
f. TXT x21340
f. TXT x21341
f. TXT x21342
f. TXT x21343
f. TXT x21344
f. TXT x21345
f. TXT x21346
f. TXT x21347
f. TXT x21348
f. TXT x21349
f. TXT x21350
f. TXT x21351
f. TXT x21352
f. TXT x21353
f. TXT x21354
f. TXT x21355
f. TXT x21356
f. TXT x21357
f. TXT x21358
f. TXT x21359
f. TXT x21360
f. TXT x21361
f. TXT x21362
f. TXT x21363
f. TXT x21364
f. TXT x21365
f. TXT x21366
f. TXT x21367
f. TXT x21368
f. TXT x21369
f. TXT x21370
f. TXT x21371
f. TXT x21372
f. TXT x21373
f. TXT x21374
f. TXT x21375
; aaz
f. TXT x21377
f. TXT x21378
f. TXT x21379
f. TXT x21380
f. TXT x21381
f. TXT x21382
f. TXT x21383
f. TXT x21384
f. TXT x21385
f. TXT x21386
f. TXT x21387
f. TXT x21388
f. TXT x21389
f. TXT x21390
f. TXT x21391
f. TXT x21392
f. TXT x21393
f. TXT x21394
f. TXT x21395
f. TXT x21396
f. TXT x21397
f. TXT x21398
f. TXT x21399
f. TXT x21400
f. TXT x21401
f. TXT x21402
f. TXT x21403
f. TXT x21404
f. TXT x21405
f. TXT x21406
f. TXT x21407
f. TXT x21408
f. TXT x21409
f. TXT x21410
f. TXT x21411
f. TXT x21412
f. TXT x21413
f. TXT x21414
f. TXT x21415
f. TXT x21416
f. TXT x21417
f. TXT x21418
f. TXT x21419
f. TXT x21420
f. TXT x21421
f. TXT x21422
f. TXT x21423
f. TXT x21424
f. TXT x21425
f. TXT x21426
f. TXT x21427
f. TXT x21428
f. TXT x21429
f. TXT x21430
f. TXT x21431
f. TXT x21432
f. TXT x21433
f. TXT x21434
f. TXT x21435
f. TXT x21436
f. TXT x21437
f. TXT x21438
f. TXT x21439
y. A a
f. TXT x21441
f. TXT x21442
f. TXT x21443
f. TXT x21444
f. TXT x21445
f. TXT x21446
f. TXT x21447
f. TXT x21448
f. TXT x21449
f. TXT x21450
f. TXT x21451
f. TXT x21452
f. TXT x21453
f. TXT x21454
f. TXT x21455
f. TXT x21456
f. TXT x21457
f. TXT x21458
f. TXT x21459
f. TXT x21460
f. TXT x21461
f. TXT x21462
f. TXT x21463
f. TXT x21464
f. TXT x21465
f. TXT x21466
f. TXT x21467
f. TXT x21468
f. TXT x21469
f. TXT x21470
f. TXT x21471
f. TXT x21472
f. TXT x21473
f. TXT x21474
f. TXT x21475
f. TXT x21476
f. TXT x21477
f. TXT x21478
f. TXT x21479
f. TXT x21480
f. TXT x21481
f. TXT x21482
f. TXT x21483
f. TXT x21484
f. TXT x21485
f. TXT x21486
f. TXT x21487
f. TXT x21488
f. TXT x21489
f. TXT x21490
f. TXT x21491
f. TXT x21492
f. TXT x21493
f. TXT x21494
f. TXT x21495
f. TXT x21496
f. TXT x21497
f. TXT x21498
f. TXT x21499
f. TXT x21500
f. TXT x21501
f. TXT x21502
f. TXT x21503
 A c
f. TXT x21505
f. TXT x21506
f. TXT x21507
f. TXT x21508
f. TXT x21509
f. TXT x21510
f. TXT x21511
f. TXT x21512
f. TXT x21513
f. TXT x21514
f. TXT x21515
f. TXT x21516
f. TXT x21517
f. TXT x21518
f. TXT x21519
f. TXT x21520
f. TXT x21521
f. TXT x21522
f. TXT x21523
f. TXT x21524
f. TXT x21525
f. TXT x21526
f. TXT x21527
f. TXT x21528
f. TXT x21529
f. TXT x21530
f. TXT x21531
f. TXT x21532
f. TXT x21533
f. TXT x21534
f. TXT x21535
f. TXT x21536
f. TXT x21537
f. TXT x21538
f. TXT x21539
f. TXT x21540
f. TXT x21541
f. TXT x21542
f. TXT x21543
f. TXT x21544
f. TXT x21545
f. TXT x21546
f. TXT x21547
f. TXT x21548
f. TXT x21549
f. TXT x21550
f. TXT x21551
f. TXT x21552
f. TXT x21553
f. TXT x21554
f. TXT x21555
f. TXT x21556
f. TXT x21557
f. TXT x21558
f. TXT x21559
f. TXT x21560
f. TXT x21561
f. TXT x21562
f. TXT x21563
f. TXT x21564
f. TXT x21565
f. TXT x21566
f. TXT x21567
$TTL 1630352
f. TXT x21569
f. TXT x21570
f. TXT x21571
f. TXT x21572
f. TXT x21573
f. TXT x21574
f. TXT x21575
f. TXT x21576
f. TXT x21577
f. TXT x21578
f. TXT x21579
f. TXT x21580
f. TXT x21581
f. TXT x21582
f. TXT x21583
f. TXT x21584
f. TXT x21585
f. TXT x21586
f. TXT x21587
f. TXT x21588
f. TXT x21589
f. TXT x21590
f. TXT x21591
f. TXT x21592
f. TXT x21593
f. TXT x21594
f. TXT x21595
f. TXT x21596
f. TXT x21597
f. TXT x21598
f. TXT x21599
f. TXT x21600
f. TXT x21601
f. TXT x21602
f. TXT x21603
f. TXT x21604
f. TXT x21605
f. TXT x21606
f. TXT x21607
f. TXT x21608
f. TXT x21609
f. TXT x21610
f. TXT x21611
f. TXT x21612
f. TXT x21613
f. TXT x21614
f. TXT x21615
f. TXT x21616
f. TXT x21617
f. TXT x21618
f. TXT x21619
f. TXT x21620
f. TXT x21621
f. TXT x21622
f. TXT x21623
f. TXT x21624
f. TXT x21625
f. TXT x21626
f. TXT x21627
f. TXT x21628
f. TXT x21629
f. TXT x21630
f. TXT x21631
$ORIGIN -a-*.
f. TXT x21633
f. TXT x21634
f. TXT x21635
f. TXT x21636
f. TXT x21637
f. TXT x21638
f. TXT x21639
f. TXT x21640
f. TXT x21641
f. TXT x21642
f. TXT x21643
f. TXT x21644
f. TXT x21645
f. TXT x21646
f. TXT x21647
f. TXT x21648
f. TXT x21649
f. TXT x21650
f. TXT x21651
f. TXT x21652
f. TXT x21653
f. TXT x21654
f. TXT x21655
f. TXT x21656
f. TXT x21657
f. TXT x21658
f. TXT x21659
f. TXT x21660
f. TXT x21661
f. TXT x21662
f. TXT x21663
f. TXT x21664
f. TXT x21665
f. TXT x21666
f. TXT x21667
f. TXT x21668
f. TXT x21669
f. TXT x21670
f. TXT x21671
f. TXT x21672
f. TXT x21673
f. TXT x21674
f. TXT x21675
f. TXT x21676
f. TXT x21677
f. TXT x21678
f. TXT x21679
f. TXT x21680
f. TXT x21681
f. TXT x21682
f. TXT x21683
f. TXT x21684
f. TXT x21685
f. TXT x21686
f. TXT x21687
f. TXT x21688
f. TXT x21689
f. TXT x21690
f. TXT x21691
f. TXT x21692
f. TXT x21693
f. TXT x21694
f. TXT x21695
bx. TXT z- -x
f. TXT x21697
f. TXT x21698
f. TXT x21699
f. TXT x21700
f. TXT x21701
f. TXT x21702
f. TXT x21703
f. TXT x21704
f. TXT x21705
f. TXT x21706
f. TXT x21707
f. TXT x21708
f. TXT x21709
f. TXT x21710
f. TXT x21711
f. TXT x21712
f. TXT x21713
f. TXT x21714
f. TXT x21715
f. TXT x21716
f. TXT x21717
f. TXT x21718
f. TXT x21719
f. TXT x21720
f. TXT x21721
f. TXT x21722
f. TXT x21723
f. TXT x21724
f. TXT x21725
f. TXT x21726
f. TXT x21727
f. TXT x21728
f. TXT x21729
f. TXT x21730
f. TXT x21731
f. TXT x21732
f. TXT x21733
f. TXT x21734
f. TXT x21735
f. TXT x21736
f. TXT x21737
f. TXT x21738
f. TXT x21739
f. TXT x21740
f. TXT x21741
f. TXT x21742
f. TXT x21743
f. TXT x21744
f. TXT x21745
f. TXT x21746
f. TXT x21747
f. TXT x21748
f. TXT x21749
f. TXT x21750
f. TXT x21751
f. TXT x21752
f. TXT x21753
f. TXT x21754
f. TXT x21755
f. TXT x21756
f. TXT x21757
f. TXT x21758
f. TXT x21759
 A 0-
f. TXT x21761
f. TXT x21762
f. TXT x21763
f. TXT x21764
f. TXT x21765
f. TXT x21766
f. TXT x21767
f. TXT x21768
f. TXT x21769
f. TXT x21770
f. TXT x21771
f. TXT x21772
f. TXT x21773
f. TXT x21774
f. TXT x21775
f. TXT x21776
f. TXT x21777
f. TXT x21778
f. TXT x21779
f. TXT x21780
f. TXT x21781
f. TXT x21782
f. TXT x21783
f. TXT x21784
f. TXT x21785
f. TXT x21786
f. TXT x21787
f. TXT x21788
f. TXT x21789
f. TXT x21790
f. TXT x21791
f. TXT x21792
f. TXT x21793
f. TXT x21794
f. TXT x21795
f. TXT x21796
f. TXT x21797
f. TXT x21798
f. TXT x21799
f. TXT x21800
f. TXT x21801
f. TXT x21802
f. TXT x21803
f. TXT x21804
f. TXT x21805
f. TXT x21806
f. TXT x21807
f. TXT x21808
f. TXT x21809
f. TXT x21810
f. TXT x21811
f. TXT x21812
f. TXT x21813
f. TXT x21814
f. TXT x21815
f. TXT x21816
f. TXT x21817
f. TXT x21818
f. TXT x21819
f. TXT x21820
f. TXT x21821
f. TXT x21822
f. TXT x21823
 TXT 0czz 0-z* a
f. TXT x21825
f. TXT x21826
f. TXT x21827
f. TXT x21828
f. TXT x21829
f. TXT x21830
f. TXT x21831
f. TXT x21832
f. TXT x21833
f. TXT x21834
f. TXT x21835
f. TXT x21836
f. TXT x21837
f. TXT x21838
f. TXT x21839
f. TXT x21840
f. TXT x21841
f. TXT x21842
f. TXT x21843
f. TXT x21844
f. TXT x21845
f. TXT x21846
f. TXT x21847
f. TXT x21848
f. TXT x21849
f. TXT x21850
f. TXT x21851
f. TXT x21852
f. TXT x21853
f. TXT x21854
f. TXT x21855
f. TXT x21856
f. TXT x21857
f. TXT x21858
f. TXT x21859
f. TXT x21860
f. TXT x21861
f. TXT x21862
f. TXT x21863
f. TXT x21864
f. TXT x21865
f. TXT x21866
f. TXT x21867
f. TXT x21868
f. TXT x21869
f. TXT x21870
f. TXT x21871
f. TXT x21872
f. TXT x21873
f. TXT x21874
f. TXT x21875
f. TXT x21876
f. TXT x21877
f. TXT x21878
f. TXT x21879
f. TXT x21880
f. TXT x21881
f. TXT x21882
f. TXT x21883
f. TXT x21884
f. TXT x21885
f. TXT x21886
f. TXT x21887

f. TXT x21889
f. TXT x21890
f. TXT x21891
f. TXT x21892
f. TXT x21893
f. TXT x21894
f. TXT x21895
f. TXT x21896
f. TXT x21897
f. TXT x21898
f. TXT x21899
f. TXT x21900
f. TXT x21901
f. TXT x21902
f. TXT x21903
f. TXT x21904
f. TXT x21905
f. TXT x21906
f. TXT x21907
f. TXT x21908
f. TXT x21909
f. TXT x21910
f. TXT x21911
f. TXT x21912
f. TXT x21913
f. TXT x21914
f. TXT x21915
f. TXT x21916
f. TXT x21917
f. TXT x21918
f. TXT x21919
f. TXT x21920
f. TXT x21921
f. TXT x21922
f. TXT x21923
f. TXT x21924
f. TXT x21925
f. TXT x21926
f. TXT x21927
f. TXT x21928
f. TXT x21929
f. TXT x21930
f. TXT x21931
f. TXT x21932
f. TXT x21933
f. TXT x21934
f. TXT x21935
f. TXT x21936
f. TXT x21937
f. TXT x21938
f. TXT x21939
f. TXT x21940
f. TXT x21941
f. TXT x21942
f. TXT x21943
f. TXT x21944
f. TXT x21945
f. TXT x21946
f. TXT x21947
f. TXT x21948
f. TXT x21949
f. TXT x21950
f. TXT x21951
@ A 0za
f. TXT x21953
f. TXT x21954
f. TXT x21955
f. TXT x21956
f. TXT x21957
f. TXT x21958
f. TXT x21959
f. TXT x21960
f. TXT x21961
f. TXT x21962
f. TXT x21963
f. TXT x21964
f. TXT x21965
f. TXT x21966
f. TXT x21967
f. TXT x21968
f. TXT x21969
f. TXT x21970
f. TXT x21971
f. TXT x21972
f. TXT x21973
f. TXT x21974
f. TXT x21975
f. TXT x21976
f. TXT x21977
f. TXT x21978
f. TXT x21979
f. TXT x21980
f. TXT x21981
f. TXT x21982
f. TXT x21983
f. TXT x21984
f. TXT x21985
f. TXT x21986
f. TXT x21987
f. TXT x21988
f. TXT x21989
f. TXT x21990
f. TXT x21991
f. TXT x21992
f. TXT x21993
f. TXT x21994
f. TXT x21995
f. TXT x21996
f. TXT x21997
f. TXT x21998
f. TXT x21999
f. TXT x22000
f. TXT x22001
f. TXT x22002
f. TXT x22003
f. TXT x22004
f. TXT x22005
f. TXT x22006
f. TXT x22007
f. TXT x22008
f. TXT x22009
f. TXT x22010
f. TXT x22011
f. TXT x22012
f. TXT x22013
f. TXT x22014
f. TXT x22015
-b.aycy. TXT -xx -c zbb
f. TXT x22017
f. TXT x22018
f. TXT x22019
f. TXT x22020
f. TXT x22021
f. TXT x22022
f. TXT x22023
f. TXT x22024
f. TXT x22025
f. TXT x22026
f. TXT x22027
f. TXT x22028
f. TXT x22029
f. TXT x22030
f. TXT x22031
f. TXT x22032
f. TXT x22033
f. TXT x22034
f. TXT x22035
f. TXT x22036
f. TXT x22037
f. TXT x22038
f. TXT x22039
f. TXT x22040
f. TXT x22041
f. TXT x22042
f. TXT x22043
f. TXT x22044
f. TXT x22045
f. TXT x22046
f. TXT x22047
f. TXT x22048
f. TXT x22049
f. TXT x22050
f. TXT x22051
f. TXT x22052
f. TXT x22053
f. TXT x22054
f. TXT x22055
f. TXT x22056
f. TXT x22057
f. TXT x22058
f. TXT x22059
f. TXT x22060
f. TXT x22061
f. TXT x22062
f. TXT x22063
f. TXT x22064
f. TXT x22065
f. TXT x22066
f. TXT x22067
f. TXT x22068
f. TXT x22069
f. TXT x22070
f. TXT x22071
f. TXT x22072
f. TXT x22073
f. TXT x22074
f. TXT x22075
f. TXT x22076
f. TXT x22077
f. TXT x22078
f. TXT x22079
0* A *zx b
f. TXT x22081
f. TXT x22082
f. TXT x22083
f. TXT x22084
f. TXT x22085
f. TXT x22086
f. TXT x22087
f. TXT x22088
f. TXT x22089
f. TXT x22090
f. TXT x22091
f. TXT x22092
f. TXT x22093
f. TXT x22094
f. TXT x22095
f. TXT x22096
f. TXT x22097
f. TXT x22098
f. TXT x22099
f. TXT x22100
f. TXT x22101
f. TXT x22102
f. TXT x22103
f. TXT x22104
f. TXT x22105
f. TXT x22106
f. TXT x22107
f. TXT x22108
f. TXT x22109
f. TXT x22110
f. TXT x22111
f. TXT x22112
f. TXT x22113
f. TXT x22114
f. TXT x22115
f. TXT x22116
f. TXT x22117
f. TXT x22118
f. TXT x22119
f. TXT x22120
f. TXT x22121
f. TXT x22122
f. TXT x22123
f. TXT x22124
f. TXT x22125
f. TXT x22126
f. TXT x22127
f. TXT x22128
f. TXT x22129
f. TXT x22130
f. TXT x22131
f. TXT x22132
f. TXT x22133
f. TXT x22134
f. TXT x22135
f. TXT x22136
f. TXT x22137
f. TXT x22138
f. TXT x22139
f. TXT x22140
f. TXT x22141
f. TXT x22142
f. TXT x22143
@ A cyy* - **-z
f. TXT x22145
f. TXT x22146
f. TXT x22147
f. TXT x22148
f. TXT x22149
f. TXT x22150
f. TXT x22151
f. TXT x22152
f. TXT x22153
f. TXT x22154
f. TXT x22155
f. TXT x22156
f. TXT x22157
f. TXT x22158
f. TXT x22159
f. TXT x22160
f. TXT x22161
f. TXT x22162
f. TXT x22163
f. TXT x22164
f. TXT x22165
f. TXT x22166
f. TXT x22167
f. TXT x22168
f. TXT x22169
f. TXT x22170
f. TXT x22171
f. TXT x22172
f. TXT x22173
f. TXT x22174
f. TXT x22175
f. TXT x22176
f. TXT x22177
f. TXT x22178
f. TXT x22179
f. TXT x22180
f. TXT x22181
f. TXT x22182
f. TXT x22183
f. TXT x22184
f. TXT x22185
f. TXT x22186
f. TXT x22187
f. TXT x22188
f. TXT x22189
f. TXT x22190
f. TXT x22191
f. TXT x22192
f. TXT x22193
f. TXT x22194
f. TXT x22195
f. TXT x22196
f. TXT x22197
f. TXT x22198
f. TXT x22199
f. TXT x22200
f. TXT x22201
f. TXT x22202
f. TXT x22203
f. TXT x22204
f. TXT x22205
f. TXT x22206
f. TXT x22207
y* NS -
f. TXT x22209
f. TXT x22210
f. TXT x22211
f. TXT x22212
f. TXT x22213
f. TXT x22214
f. TXT x22215
f. TXT x22216
f. TXT x22217
f. TXT x22218
f. TXT x22219
f. TXT x22220
f. TXT x22221
f. TXT x22222
f. TXT x22223
f. TXT x22224
f. TXT x22225
f. TXT x22226
f. TXT x22227
f. TXT x22228
f. TXT x22229
f. TXT x22230
f. TXT x22231
f. TXT x22232
f. TXT x22233
f. TXT x22234
f. TXT x22235
f. TXT x22236
f. TXT x22237
f. TXT x22238
f. TXT x22239
f. TXT x22240
f. TXT x22241
f. TXT x22242
f. TXT x22243
f. TXT x22244
f. TXT x22245
f. TXT x22246
f. TXT x22247
f. TXT x22248
f. TXT x22249
f. TXT x22250
f. TXT x22251
f. TXT x22252
f. TXT x22253
f. TXT x22254
f. TXT x22255
f. TXT x22256
f. TXT x22257
f. TXT x22258
f. TXT x22259
f. TXT x22260
f. TXT x22261
f. TXT x22262
f. TXT x22263
f. TXT x22264
f. TXT x22265
f. TXT x22266
f. TXT x22267
f. TXT x22268
f. TXT x22269
f. TXT x22270
f. TXT x22271
@ A 0x *
f. TXT x22273
f. TXT x22274
f. TXT x22275
f. TXT x22276
f. TXT x22277
f. TXT x22278
f. TXT x22279
f. TXT x22280
f. TXT x22281
f. TXT x22282
f. TXT x22283
f. TXT x22284
f. TXT x22285
f. TXT x22286
f. TXT x22287
f. TXT x22288
f. TXT x22289
f. TXT x22290
f. TXT x22291
f. TXT x22292
f. TXT x22293
f. TXT x22294
f. TXT x22295
f. TXT x22296
f. TXT x22297
f. TXT x22298
f. TXT x22299
f. TXT x22300
f. TXT x22301
f. TXT x22302
f. TXT x22303
f. TXT x22304
f. TXT x22305
f. TXT x22306
f. TXT x22307
f. TXT x22308
f. TXT x22309
f. TXT x22310
f. TXT x22311
f. TXT x22312
f. TXT x22313
f. TXT x22314
f. TXT x22315
f. TXT x22316
f. TXT x22317
f. TXT x22318
f. TXT x22319
f. TXT x22320
f. TXT x22321
f. TXT x22322
f. TXT x22323
f. TXT x22324
f. TXT x22325
f. TXT x22326
f. TXT x22327
f. TXT x22328
f. TXT x22329
f. TXT x22330
f. TXT x22331
f. TXT x22332
f. TXT x22333
f. TXT x22334
f. TXT x22335
-xxz. TXT y
f. TXT x22337
f. TXT x22338
f. TXT x22339
f. TXT x22340
f. TXT x22341
f. TXT x22342
f. TXT x22343
f. TXT x22344
f. TXT x22345
f. TXT x22346
f. TXT x22347
f. TXT x22348
f. TXT x22349
f. TXT x22350
f. TXT x22351
f. TXT x22352
f. TXT x22353
f. TXT x22354
f. TXT x22355
f. TXT x22356
f. TXT x22357
f. TXT x22358
f. TXT x22359
f. TXT x22360
f. TXT x22361
f. TXT x22362
f. TXT x22363
f. TXT x22364
f. TXT x22365
f. TXT x22366
f. TXT x22367
f. TXT x22368
f. TXT x22369
f. TXT x22370
f. TXT x22371
f. TXT x22372
f. TXT x22373
f. TXT x22374
f. TXT x22375
f. TXT x22376
f. TXT x22377
f. TXT x22378
f. TXT x22379
f. TXT x22380
f. TXT x22381
f. TXT x22382
f. TXT x22383
f. TXT x22384
f. TXT x22385
f. TXT x22386
f. TXT x22387
f. TXT x22388
f. TXT x22389
f. TXT x22390
f. TXT x22391
f. TXT x22392
f. TXT x22393
f. TXT x22394
f. TXT x22395
f. TXT x22396
f. TXT x22397
f. TXT x22398
f. TXT x22399
$TTL 4294967295
f. TXT x22401
f. TXT x22402
f. TXT x22403
f. TXT x22404
f. TXT x22405
f. TXT x22406
f. TXT x22407
f. TXT x22408
f. TXT x22409
f. TXT x22410
f. TXT x22411
f. TXT x22412
f. TXT x22413
f. TXT x22414
f. TXT x22415
f. TXT x22416
f. TXT x22417
f. TXT x22418
f. TXT x22419
f. TXT x22420
f. TXT x22421
f. TXT x22422
f. TXT x22423
f. TXT x22424
f. TXT x22425
f. TXT x22426
f. TXT x22427
f. TXT x22428
f. TXT x22429
f. TXT x22430
f. TXT x22431
f. TXT x22432
f. TXT x22433
f. TXT x22434
f. TXT x22435
f. TXT x22436
f. TXT x22437
f. TXT x22438
f. TXT x22439
f. TXT x22440
f. TXT x22441
f. TXT x22442
f. TXT x22443
f. TXT x22444
f. TXT x22445
f. TXT x22446
f. TXT x22447
f. TXT x22448
f. TXT x22449
f. TXT x22450
f. TXT x22451
f. TXT x22452
f. TXT x22453
f. TXT x22454
f. TXT x22455
f. TXT x22456
f. TXT x22457
f. TXT x22458
f. TXT x22459
f. TXT x22460
f. TXT x22461
f. TXT x22462
f. TXT x22463
@ A baxb
f. TXT x22465
f. TXT x22466
f. TXT x22467
f. TXT x22468
f. TXT x22469
f. TXT x22470
f. TXT x22471
f. TXT x22472
f. TXT x22473
f. TXT x22474
f. TXT x22475
f. TXT x22476
f. TXT x22477
f. TXT x22478
f. TXT x22479
f. TXT x22480
f. TXT x22481
f. TXT x22482
f. TXT x22483
f. TXT x22484
f. TXT x22485
f. TXT x22486
f. TXT x22487
f. TXT x22488
f. TXT x22489
f. TXT x22490
f. TXT x22491
f. TXT x22492
f. TXT x22493
f. TXT x22494
f. TXT x22495
f. TXT x22496
f. TXT x22497
f. TXT x22498
f. TXT x22499
f. TXT x22500
f. TXT x22501
f. TXT x22502
f. TXT x22503
f. TXT x22504
f. TXT x22505
f. TXT x22506
f. TXT x22507
f. TXT x22508
f. TXT x22509
f. TXT x22510
f. TXT x22511
f. TXT x22512
f. TXT x22513
f. TXT x22514
f. TXT x22515
f. TXT x22516
f. TXT x22517
f. TXT x22518
f. TXT x22519
f. TXT x22520
f. TXT x22521
f. TXT x22522
f. TXT x22523
f. TXT x22524
f. TXT x22525
f. TXT x22526
f. TXT x22527
$TTL 5
f. TXT x22529
f. TXT x22530
f. TXT x22531
f. TXT x22532
f. TXT x22533
f. TXT x22534
f. TXT x22535
f. TXT x22536
f. TXT x22537
f. TXT x22538
f. TXT x22539
f. TXT x22540
f. TXT x22541
f. TXT x22542
f. TXT x22543
f. TXT x22544
f. TXT x22545
f. TXT x22546
f. TXT x22547
f. TXT x22548
f. TXT x22549
f. TXT x22550
f. TXT x22551
f. TXT x22552
f. TXT x22553
f. TXT x22554
f. TXT x22555
f. TXT x22556
f. TXT x22557
f. TXT x22558
f. TXT x22559
f. TXT x22560
f. TXT x22561
f. TXT x22562
f. TXT x22563
f. TXT x22564
f. TXT x22565
f. TXT x22566
f. TXT x22567
f. TXT x22568
f. TXT x22569
f. TXT x22570
f. TXT x22571
f. TXT x22572
f. TXT x22573
f. TXT x22574
f. TXT x22575
f. TXT x22576
f. TXT x22577
f. TXT x22578
f. TXT x22579
f. TXT x22580
f. TXT x22581
f. TXT x22582
f. TXT x22583
f. TXT x22584
f. TXT x22585
f. TXT x22586
f. TXT x22587
f. TXT x22588
f. TXT x22589
f. TXT x22590
f. TXT x22591
0x-*. A cy bzx x*
f. TXT x22593
f. TXT x22594
f. TXT x22595
f. TXT x22596
f. TXT x22597
f. TXT x22598
f. TXT x22599
f. TXT x22600
f. TXT x22601
f. TXT x22602
f. TXT x22603
f. TXT x22604
f. TXT x22605
f. TXT x22606
f. TXT x22607
f. TXT x22608
f. TXT x22609
f. TXT x22610
f. TXT x22611
f. TXT x22612
f. TXT x22613
f. TXT x22614
f. TXT x22615
f. TXT x22616
f. TXT x22617
f. TXT x22618
f. TXT x22619
f. TXT x22620
f. TXT x22621
f. TXT x22622
f. TXT x22623
f. TXT x22624
f. TXT x22625
f. TXT x22626
f. TXT x22627
f. TXT x22628
f. TXT x22629
f. TXT x22630
f. TXT x22631
f. TXT x22632
f. TXT x22633
f. TXT x22634
f. TXT x22635
f. TXT x22636
f. TXT x22637
f. TXT x22638
f. TXT x22639
f. TXT x22640
f. TXT x22641
f. TXT x22642
f. TXT x22643
f. TXT x22644
f. TXT x22645
f. TXT x22646
f. TXT x22647
f. TXT x22648
f. TXT x22649
f. TXT x22650
f. TXT x22651
f. TXT x22652
f. TXT x22653
f. TXT x22654
f. TXT x22655
 NS byax
f. TXT x22657
f. TXT x22658
f. TXT x22659
f. TXT x22660
f. TXT x22661
f. TXT x22662
f. TXT x22663
f. TXT x22664
f. TXT x22665
f. TXT x22666
f. TXT x22667
f. TXT x22668
f. TXT x22669
f. TXT x22670
f. TXT x22671
f. TXT x22672
f. TXT x22673
f. TXT x22674
f. TXT x22675
f. TXT x22676
f. TXT x22677
f. TXT x22678
f. TXT x22679
f. TXT x22680
f. TXT x22681
f. TXT x22682
f. TXT x22683
f. TXT x22684
f. TXT x22685
f. TXT x22686
f. TXT x22687
f. TXT x22688
f. TXT x22689
f. TXT x22690
f. TXT x22691
f. TXT x22692
f. TXT x22693
f. TXT x22694
f. TXT x22695
f. TXT x22696
f. TXT x22697
f. TXT x22698
f. TXT x22699
f. TXT x22700
f. TXT x22701
f. TXT x22702
f. TXT x22703
f. TXT x22704
f. TXT x22705
f. TXT x22706
f. TXT x22707
f. TXT x22708
f. TXT x22709
f. TXT x22710
f. TXT x22711
f. TXT x22712
f. TXT x22713
f. TXT x22714
f. TXT x22715
f. TXT x22716
f. TXT x22717
f. TXT x22718
f. TXT x22719
acy A b- a0a* -*
f. TXT x22721
f. TXT x22722
f. TXT x22723
f. TXT x22724
f. TXT x22725
f. TXT x22726
f. TXT x22727
f. TXT x22728
f. TXT x22729
f. TXT x22730
f. TXT x22731
f. TXT x22732
f. TXT x22733
f. TXT x22734
f. TXT x22735
f. TXT x22736
f. TXT x22737
f. TXT x22738
f. TXT x22739
f. TXT x22740
f. TXT x22741
f. TXT x22742
f. TXT x22743
f. TXT x22744
f. TXT x22745
f. TXT x22746
f. TXT x22747
f. TXT x22748
f. TXT x22749
f. TXT x22750
f. TXT x22751
f. TXT x22752
f. TXT x22753
f. TXT x22754
f. TXT x22755
f. TXT x22756
f. TXT x22757
f. TXT x22758
f. TXT x22759
f. TXT x22760
f. TXT x22761
f. TXT x22762
f. TXT x22763
f. TXT x22764
f. TXT x22765
f. TXT x22766
f. TXT x22767
f. TXT x22768
f. TXT x22769
f. TXT x22770
f. TXT x22771
f. TXT x22772
f. TXT x22773
f. TXT x22774
f. TXT x22775
f. TXT x22776
f. TXT x22777
f. TXT x22778
f. TXT x22779
f. TXT x22780
f. TXT x22781
f. TXT x22782
f. TXT x22783
-x0b. TXT x a00-
f. TXT x22785
f. TXT x22786
f. TXT x22787
f. TXT x22788
f. TXT x22789
f. TXT x22790
f. TXT x22791
f. TXT x22792
f. TXT x22793
f. TXT x22794
f. TXT x22795
f. TXT x22796
f. TXT x22797
f. TXT x22798
f. TXT x22799
f. TXT x22800
f. TXT x22801
f. TXT x22802
f. TXT x22803
f. TXT x22804
f. TXT x22805
f. TXT x22806
f. TXT x22807
f. TXT x22808
f. TXT x22809
f. TXT x22810
f. TXT x22811
f. TXT x22812
f. TXT x22813
f. TXT x22814
f. TXT x22815
f. TXT x22816
f. TXT x22817
f. TXT x22818
f. TXT x22819
f. TXT x22820
f. TXT x22821
f. TXT x22822
f. TXT x22823
f. TXT x22824
f. TXT x22825
f. TXT x22826
f. TXT x22827
f. TXT x22828
f. TXT x22829
f. TXT x22830
f. TXT x22831
f. TXT x22832
f. TXT x22833
f. TXT x22834
f. TXT x22835
f. TXT x22836
f. TXT x22837
f. TXT x22838
f. TXT x22839
f. TXT x22840
f. TXT x22841
f. TXT x22842
f. TXT x22843
f. TXT x22844
f. TXT x22845
f. TXT x22846
f. TXT x22847
c NS c*cc
f. TXT x22849
f. TXT x22850
f. TXT x22851
f. TXT x22852
f. TXT x22853
f. TXT x22854
f. TXT x22855
f. TXT x22856
f. TXT x22857
f. TXT x22858
f. TXT x22859
f. TXT x22860
f. TXT x22861
f. TXT x22862
f. TXT x22863
f. TXT x22864
f. TXT x22865
f. TXT x22866
f. TXT x22867
f. TXT x22868
f. TXT x22869
f. TXT x22870
f. TXT x22871
f. TXT x22872
f. TXT x22873
f. TXT x22874
f. TXT x22875
f. TXT x22876
f. TXT x22877
f. TXT x22878
f. TXT x22879
f. TXT x22880
f. TXT x22881
f. TXT x22882
f. TXT x22883
f. TXT x22884
f. TXT x22885
f. TXT x22886
f. TXT x22887
f. TXT x22888
f. TXT x22889
f. TXT x22890
f. TXT x22891
f. TXT x22892
f. TXT x22893
f. TXT x22894
f. TXT x22895
f. TXT x22896
f. TXT x22897
f. TXT x22898
f. TXT x22899
f. TXT x22900
f. TXT x22901
f. TXT x22902
f. TXT x22903
f. TXT x22904
f. TXT x22905
f. TXT x22906
f. TXT x22907
f. TXT x22908
f. TXT x22909
f. TXT x22910
f. TXT x22911
$TTL 4
f. TXT x22913
f. TXT x22914
f. TXT x22915
f. TXT x22916
f. TXT x22917
f. TXT x22918
f. TXT x22919
f. TXT x22920
f. TXT x22921
f. TXT x22922
f. TXT x22923
f. TXT x22924
f. TXT x22925
f. TXT x22926
f. TXT x22927
f. TXT x22928
f. TXT x22929
f. TXT x22930
f. TXT x22931
f. TXT x22932
f. TXT x22933
f. TXT x22934
f. TXT x22935
f. TXT x22936
f. TXT x22937
f. TXT x22938
f. TXT x22939
f. TXT x22940
f. TXT x22941
f. TXT x22942
f. TXT x22943
f. TXT x22944
f. TXT x22945
f. TXT x22946
f. TXT x22947
f. TXT x22948
f. TXT x22949
f. TXT x22950
f. TXT x22951
f. TXT x22952
f. TXT x22953
f. TXT x22954
f. TXT x22955
f. TXT x22956
f. TXT x22957
f. TXT x22958
f. TXT x22959
f. TXT x22960
f. TXT x22961
f. TXT x22962
f. TXT x22963
f. TXT x22964
f. TXT x22965
f. TXT x22966
f. TXT x22967
f. TXT x22968
f. TXT x22969
f. TXT x22970
f. TXT x22971
f. TXT x22972
f. TXT x22973
f. TXT x22974
f. TXT x22975
cz0c TXT c -az y
f. TXT x22977
f. TXT x22978
f. TXT x22979
f. TXT x22980
f. TXT x22981
f. TXT x22982
f. TXT x22983
f. TXT x22984
f. TXT x22985
f. TXT x22986
f. TXT x22987
f. TXT x22988
f. TXT x22989
f. TXT x22990
f. TXT x22991
f. TXT x22992
f. TXT x22993
f. TXT x22994
f. TXT x22995
f. TXT x22996
f. TXT x22997
f. TXT x22998
f. TXT x22999
f. TXT x23000
f. TXT x23001
f. TXT x23002
f. TXT x23003
f. TXT x23004
f. TXT x23005
f. TXT x23006
f. TXT x23007
f. TXT x23008
f. TXT x23009
f. TXT x23010
f. TXT x23011
f. TXT x23012
f. TXT x23013
f. TXT x23014
f. TXT x23015
f. TXT x23016
f. TXT x23017
f. TXT x23018
f. TXT x23019
f. TXT x23020
f. TXT x23021
f. TXT x23022
f. TXT x23023
f. TXT x23024
f. TXT x23025
f. TXT x23026
f. TXT x23027
f. TXT x23028
f. TXT x23029
f. TXT x23030
f. TXT x23031
f. TXT x23032
f. TXT x23033
f. TXT x23034
f. TXT x23035
f. TXT x23036
f. TXT x23037
f. TXT x23038
f. TXT x23039
bzx TXT bzy0 cy
f. TXT x23041
f. TXT x23042
f. TXT x23043
f. TXT x23044
f. TXT x23045
f. TXT x23046
f. TXT x23047
f. TXT x23048
f. TXT x23049
f. TXT x23050
f. TXT x23051
f. TXT x23052
f. TXT x23053
f. TXT x23054
f. TXT x23055
f. TXT x23056
f. TXT x23057
f. TXT x23058
f. TXT x23059
f. TXT x23060
f. TXT x23061
f. TXT x23062
f. TXT x23063
f. TXT x23064
f. TXT x23065
f. TXT x23066
f. TXT x23067
f. TXT x23068
f. TXT x23069
f. TXT x23070
f. TXT x23071
f. TXT x23072
f. TXT x23073
f. TXT x23074
f. TXT x23075
f. TXT x23076
f. TXT x23077
f. TXT x23078
f. TXT x23079
f. TXT x23080
f. TXT x23081
f. TXT x23082
f. TXT x23083
f. TXT x23084
f. TXT x23085
f. TXT x23086
f. TXT x23087
f. TXT x23088
f. TXT x23089
f. TXT x23090
f. TXT x23091
f. TXT x23092
f. TXT x23093
f. TXT x23094
f. TXT x23095
f. TXT x23096
f. TXT x23097
f. TXT x23098
f. TXT x23099
f. TXT x23100
f. TXT x23101
f. TXT x23102
f. TXT x23103
@ A zaaa -ya
f. TXT x23105
f. TXT x23106
f. TXT x23107
f. TXT x23108
f. TXT x23109
f. TXT x23110
f. TXT x23111
f. TXT x23112
f. TXT x23113
f. TXT x23114
f. TXT x23115
f. TXT x23116
f. TXT x23117
f. TXT x23118
f. TXT x23119
f. TXT x23120
f. TXT x23121
f. TXT x23122
f. TXT x23123
f. TXT x23124
f. TXT x23125
f. TXT x23126
f. TXT x23127
f. TXT x23128
f. TXT x23129
f. TXT x23130
f. TXT x23131
f. TXT x23132
f. TXT x23133
f. TXT x23134
f. TXT x23135
f. TXT x23136
f. TXT x23137
f. TXT x23138
f. TXT x23139
f. TXT x23140
f. TXT x23141
f. TXT x23142
f. TXT x23143
f. TXT x23144
f. TXT x23145
f. TXT x23146
f. TXT x23147
f. TXT x23148
f. TXT x23149
f. TXT x23150
f. TXT x23151
f. TXT x23152
f. TXT x23153
f. TXT x23154
f. TXT x23155
f. TXT x23156
f. TXT x23157
f. TXT x23158
f. TXT x23159
f. TXT x23160
f. TXT x23161
f. TXT x23162
f. TXT x23163
f. TXT x23164
f. TXT x23165
f. TXT x23166
f. TXT x23167
@ A b0
f. TXT x23169
f. TXT x23170
f. TXT x23171
f. TXT x23172
f. TXT x23173
f. TXT x23174
f. TXT x23175
f. TXT x23176
f. TXT x23177
f. TXT x23178
f. TXT x23179
f. TXT x23180
f. TXT x23181
f. TXT x23182
f. TXT x23183
f. TXT x23184
f. TXT x23185
f. TXT x23186
f. TXT x23187
f. TXT x23188
f. TXT x23189
f. TXT x23190
f. TXT x23191
f. TXT x23192
f. TXT x23193
f. TXT x23194
f. TXT x23195
f. TXT x23196
f. TXT x23197
f. TXT x23198
f. TXT x23199
f. TXT x23200
f. TXT x23201
f. TXT x23202
f. TXT x23203
f. TXT x23204
f. TXT x23205
f. TXT x23206
f. TXT x23207
f. TXT x23208
f. TXT x23209
f. TXT x23210
f. TXT x23211
f. TXT x23212
f. TXT x23213
f. TXT x23214
f. TXT x23215
f. TXT x23216
f. TXT x23217
f. TXT x23218
f. TXT x23219
f. TXT x23220
f. TXT x23221
f. TXT x23222
f. TXT x23223
f. TXT x23224
f. TXT x23225
f. TXT x23226
f. TXT x23227
f. TXT x23228
f. TXT x23229
f. TXT x23230
f. TXT x23231
$ORIGIN *.z*.
f. TXT x23233
f. TXT x23234
f. TXT x23235
f. TXT x23236
f. TXT x23237
f. TXT x23238
f. TXT x23239
f. TXT x23240
f. TXT x23241
f. TXT x23242
f. TXT x23243
f. TXT x23244
f. TXT x23245
f. TXT x23246
f. TXT x23247
f. TXT x23248
f. TXT x23249
f. TXT x23250
f. TXT x23251
f. TXT x23252
f. TXT x23253
f. TXT x23254
f. TXT x23255
f. TXT x23256
f. TXT x23257
f. TXT x23258
f. TXT x23259
f. TXT x23260
f. TXT x23261
f. TXT x23262
f. TXT x23263
f. TXT x23264
f. TXT x23265
f. TXT x23266
f. TXT x23267
f. TXT x23268
f. TXT x23269
f. TXT x23270
f. TXT x23271
f. TXT x23272
f. TXT x23273
f. TXT x23274
f. TXT x23275
f. TXT x23276
f. TXT x23277
f. TXT x23278
f. TXT x23279
f. TXT x23280
f. TXT x23281
f. TXT x23282
f. TXT x23283
f. TXT x23284
f. TXT x23285
f. TXT x23286
f. TXT x23287
f. TXT x23288
f. TXT x23289
f. TXT x23290
f. TXT x23291
f. TXT x23292
f. TXT x23293
f. TXT x23294
f. TXT x23295
@ NS -
f. TXT x23297
f. TXT x23298
f. TXT x23299
f. TXT x23300
f. TXT x23301
f. TXT x23302
f. TXT x23303
f. TXT x23304
f. TXT x23305
f. TXT x23306
f. TXT x23307
f. TXT x23308
f. TXT x23309
f. TXT x23310
f. TXT x23311
f. TXT x23312
f. TXT x23313
f. TXT x23314
f. TXT x23315
f. TXT x23316
f. TXT x23317
f. TXT x23318
f. TXT x23319
f. TXT x23320
f. TXT x23321
f. TXT x23322
f. TXT x23323
f. TXT x23324
f. TXT x23325
f. TXT x23326
f. TXT x23327
f. TXT x23328
f. TXT x23329
f. TXT x23330
f. TXT x23331
f. TXT x23332
f. TXT x23333
f. TXT x23334
f. TXT x23335
f. TXT x23336
f. TXT x23337
f. TXT x23338
f. TXT x23339
f. TXT x23340
f. TXT x23341
f. TXT x23342
f. TXT x23343
f. TXT x23344
f. TXT x23345
f. TXT x23346
f. TXT x23347
f. TXT x23348
f. TXT x23349
f. TXT x23350
f. TXT x23351
f. TXT x23352
f. TXT x23353
f. TXT x23354
f. TXT x23355
f. TXT x23356
f. TXT x23357
f. TXT x23358
f. TXT x23359

f. TXT x23361
f. TXT x23362
f. TXT x23363
f. TXT x23364
f. TXT x23365
f. TXT x23366
f. TXT x23367
f. TXT x23368
f. TXT x23369
f. TXT x23370
f. TXT x23371
f. TXT x23372
f. TXT x23373
f. TXT x23374
f. TXT x23375
f. TXT x23376
f. TXT x23377
f. TXT x23378
f. TXT x23379
f. TXT x23380
f. TXT x23381
f. TXT x23382
f. TXT x23383
f. TXT x23384
f. TXT x23385
f. TXT x23386
f. TXT x23387
f. TXT x23388
f. TXT x23389
f. TXT x23390
f. TXT x23391
f. TXT x23392
f. TXT x23393
f. TXT x23394
f. TXT x23395
f. TXT x23396
f. TXT x23397
f. TXT x23398
f. TXT x23399
f. TXT x23400
f. TXT x23401
f. TXT x23402
f. TXT x23403
f. TXT x23404
f. TXT x23405
f. TXT x23406
f. TXT x23407
f. TXT x23408
f. TXT x23409
f. TXT x23410
f. TXT x23411
f. TXT x23412
f. TXT x23413
f. TXT x23414
f. TXT x23415
f. TXT x23416
f. TXT x23417
f. TXT x23418
f. TXT x23419
f. TXT x23420
f. TXT x23421
f. TXT x23422
f. TXT x23423
 A c00
f. TXT x23425
f. TXT x23426
f. TXT x23427
f. TXT x23428
f. TXT x23429
f. TXT x23430
f. TXT x23431
f. TXT x23432
f. TXT x23433
f. TXT x23434
f. TXT x23435
f. TXT x23436
f. TXT x23437
f. TXT x23438
f. TXT x23439
f. TXT x23440
f. TXT x23441
f. TXT x23442
f. TXT x23443
f. TXT x23444
f. TXT x23445
f. TXT x23446
f. TXT x23447
f. TXT x23448
f. TXT x23449
f. TXT x23450
f. TXT x23451
f. TXT x23452
f. TXT x23453
f. TXT x23454
f. TXT x23455
f. TXT x23456
f. TXT x23457
f. TXT x23458
f. TXT x23459
f. TXT x23460
f. TXT x23461
f. TXT x23462
f. TXT x23463
f. TXT x23464
f. TXT x23465
f. TXT x23466
f. TXT x23467
f. TXT x23468
f. TXT x23469
f. TXT x23470
f. TXT x23471
f. TXT x23472
f. TXT x23473
f. TXT x23474
f. TXT x23475
f. TXT x23476
f. TXT x23477
f. TXT x23478
f. TXT x23479
f. TXT x23480
f. TXT x23481
f. TXT x23482
f. TXT x23483
f. TXT x23484
f. TXT x23485
f. TXT x23486
f. TXT x23487
$TTL 11811
f. TXT x23489
f. TXT x23490
f. TXT x23491
f. TXT x23492
f. TXT x23493
f. TXT x23494
f. TXT x23495
f. TXT x23496
f. TXT x23497
f. TXT x23498
f. TXT x23499
f. TXT x23500
f. TXT x23501
f. TXT x23502
f. TXT x23503
f. TXT x23504
f. TXT x23505
f. TXT x23506
f. TXT x23507
f. TXT x23508
f. TXT x23509
f. TXT x23510
f. TXT x23511
f. TXT x23512
f. TXT x23513
f. TXT x23514
f. TXT x23515
f. TXT x23516
f. TXT x23517
f. TXT x23518
f. TXT x23519
f. TXT x23520
f. TXT x23521
f. TXT x23522
f. TXT x23523
f. TXT x23524
f. TXT x23525
f. TXT x23526
f. TXT x23527
f. TXT x23528
f. TXT x23529
f. TXT x23530
f. TXT x23531
f. TXT x23532
f. TXT x23533
f. TXT x23534
f. TXT x23535
f. TXT x23536
f. TXT x23537
f. TXT x23538
f. TXT x23539
f. TXT x23540
f. TXT x23541
f. TXT x23542
f. TXT x23543
f. TXT x23544
f. TXT x23545
f. TXT x23546
f. TXT x23547
f. TXT x23548
f. TXT x23549
f. TXT x23550
f. TXT x23551
zy-. TXT x 0b0-
f. TXT x23553
f. TXT x23554
f. TXT x23555
f. TXT x23556
f. TXT x23557
f. TXT x23558
f. TXT x23559
f. TXT x23560
f. TXT x23561
f. TXT x23562
f. TXT x23563
f. TXT x23564
f. TXT x23565
f. TXT x23566
f. TXT x23567
f. TXT x23568
f. TXT x23569
f. TXT x23570
f. TXT x23571
f. TXT x23572
f. TXT x23573
f. TXT x23574
f. TXT x23575
f. TXT x23576
f. TXT x23577
f. TXT x23578
f. TXT x23579
f. TXT x23580
f. TXT x23581
f. TXT x23582
f. TXT x23583
f. TXT x23584
f. TXT x23585
f. TXT x23586
f. TXT x23587
f. TXT x23588
f. TXT x23589
f. TXT x23590
f. TXT x23591
f. TXT x23592
f. TXT x23593
f. TXT x23594
f. TXT x23595
f. TXT x23596
f. TXT x23597
f. TXT x23598
f. TXT x23599
f. TXT x23600
f. TXT x23601
f. TXT x23602
f. TXT x23603
f. TXT x23604
f. TXT x23605
f. TXT x23606
f. TXT x23607
f. TXT x23608
f. TXT x23609
f. TXT x23610
f. TXT x23611
f. TXT x23612
f. TXT x23613
f. TXT x23614
f. TXT x23615
yy TXT zcx- z-b by
f. TXT x23617
f. TXT x23618
f. TXT x23619
f. TXT x23620
f. TXT x23621
f. TXT x23622
f. TXT x23623
f. TXT x23624
f. TXT x23625
f. TXT x23626
f. TXT x23627
f. TXT x23628
f. TXT x23629
f. TXT x23630
f. TXT x23631
f. TXT x23632
f. TXT x23633
f. TXT x23634
f. TXT x23635
f. TXT x23636
f. TXT x23637
f. TXT x23638
f. TXT x23639
f. TXT x23640
f. TXT x23641
f. TXT x23642
f. TXT x23643
f. TXT x23644
f. TXT x23645
f. TXT x23646
f. TXT x23647
f. TXT x23648
f. TXT x23649
f. TXT x23650
f. TXT x23651
f. TXT x23652
f. TXT x23653
f. TXT x23654
f. TXT x23655
f. TXT x23656
f. TXT x23657
f. TXT x23658
f. TXT x23659
f. TXT x23660
f. TXT x23661
f. TXT x23662
f. TXT x23663
f. TXT x23664
f. TXT x23665
f. TXT x23666
f. TXT x23667
f. TXT x23668
f. TXT x23669
f. TXT x23670
f. TXT x23671
f. TXT x23672
f. TXT x23673
f. TXT x23674
f. TXT x23675
f. TXT x23676
f. TXT x23677
f. TXT x23678
f. TXT x23679
@ A -y
f. TXT x23681
f. TXT x23682
f. TXT x23683
f. TXT x23684
f. TXT x23685
f. TXT x23686
f. TXT x23687
f. TXT x23688
f. TXT x23689
f. TXT x23690
f. TXT x23691
f. TXT x23692
f. TXT x23693
f. TXT x23694
f. TXT x23695
f. TXT x23696
f. TXT x23697
f. TXT x23698
f. TXT x23699
f. TXT x23700
f. TXT x23701
f. TXT x23702
f. TXT x23703
f. TXT x23704
f. TXT x23705
f. TXT x23706
f. TXT x23707
f. TXT x23708
f. TXT x23709
f. TXT x23710
f. TXT x23711
f. TXT x23712
f. TXT x23713
f. TXT x23714
f. TXT x23715
f. TXT x23716
f. TXT x23717
f. TXT x23718
f. TXT x23719
f. TXT x23720
f. TXT x23721
f. TXT x23722
f. TXT x23723
f. TXT x23724
f. TXT x23725
f. TXT x23726
f. TXT x23727
f. TXT x23728
f. TXT x23729
f. TXT x23730
f. TXT x23731
f. TXT x23732
f. TXT x23733
f. TXT x23734
f. TXT x23735
f. TXT x23736
f. TXT x23737
f. TXT x23738
f. TXT x23739
f. TXT x23740
f. TXT x23741
f. TXT x23742
f. TXT x23743
xc A -
f. TXT x23745
f. TXT x23746
f. TXT x23747
f. TXT x23748
f. TXT x23749
f. TXT x23750
f. TXT x23751
f. TXT x23752
f. TXT x23753
f. TXT x23754
f. TXT x23755
f. TXT x23756
f. TXT x23757
f. TXT x23758
f. TXT x23759
f. TXT x23760
f. TXT x23761
f. TXT x23762
f. TXT x23763
f. TXT x23764
f. TXT x23765
f. TXT x23766
f. TXT x23767
f. TXT x23768
f. TXT x23769
f. TXT x23770
f. TXT x23771
f. TXT x23772
f. TXT x23773
f. TXT x23774
f. TXT x23775
f. TXT x23776
f. TXT x23777
f. TXT x23778
f. TXT x23779
f. TXT x23780
f. TXT x23781
f. TXT x23782
f. TXT x23783
f. TXT x23784
f. TXT x23785
f. TXT x23786
f. TXT x23787
f. TXT x23788
f. TXT x23789
f. TXT x23790
f. TXT x23791
f. TXT x23792
f. TXT x23793
f. TXT x23794
f. TXT x23795
f. TXT x23796
f. TXT x23797
f. TXT x23798
f. TXT x23799
f. TXT x23800
f. TXT x23801
f. TXT x23802
f. TXT x23803
f. TXT x23804
f. TXT x23805
f. TXT x23806
f. TXT x23807
@ NS - x0ya
f. TXT x23809
f. TXT x23810
f. TXT x23811
f. TXT x23812
f. TXT x23813
f. TXT x23814
f. TXT x23815
f. TXT x23816
f. TXT x23817
f. TXT x23818
f. TXT x23819
f. TXT x23820
f. TXT x23821
f. TXT x23822
f. TXT x23823
f. TXT x23824
f. TXT x23825
f. TXT x23826
f. TXT x23827
f. TXT x23828
f. TXT x23829
f. TXT x23830
f. TXT x23831
f. TXT x23832
f. TXT x23833
f. TXT x23834
f. TXT x23835
f. TXT x23836
f. TXT x23837
f. TXT x23838
f. TXT x23839
f. TXT x23840
f. TXT x23841
f. TXT x23842
f. TXT x23843
f. TXT x23844
f. TXT x23845
f. TXT x23846
f. TXT x23847
f. TXT x23848
f. TXT x23849
f. TXT x23850
f. TXT x23851
f. TXT x23852
f. TXT x23853
f. TXT x23854
f. TXT x23855
f. TXT x23856
f. TXT x23857
f. TXT x23858
f. TXT x23859
f. TXT x23860
f. TXT x23861
f. TXT x23862
f. TXT x23863
f. TXT x23864
f. TXT x23865
f. TXT x23866
f. TXT x23867
f. TXT x23868
f. TXT x23869
f. TXT x23870
f. TXT x23871
@ A c
f. TXT x23873
f. TXT x23874
f. TXT x23875
f. TXT x23876
f. TXT x23877
f. TXT x23878
f. TXT x23879
f. TXT x23880
f. TXT x23881
f. TXT x23882
f. TXT x23883
f. TXT x23884
f. TXT x23885
f. TXT x23886
f. TXT x23887
f. TXT x23888
f. TXT x23889
f. TXT x23890
f. TXT x23891
f. TXT x23892
f. TXT x23893
f. TXT x23894
f. TXT x23895
f. TXT x23896
f. TXT x23897
f. TXT x23898
f. TXT x23899
f. TXT x23900
f. TXT x23901
f. TXT x23902
f. TXT x23903
f. TXT x23904
f. TXT x23905
f. TXT x23906
f. TXT x23907
f. TXT x23908
f. TXT x23909
f. TXT x23910
f. TXT x23911
f. TXT x23912
f. TXT x23913
f. TXT x23914
f. TXT x23915
f. TXT x23916
f. TXT x23917
f. TXT x23918
f. TXT x23919
f. TXT x23920
f. TXT x23921
f. TXT x23922
f. TXT x23923
f. TXT x23924
f. TXT x23925
f. TXT x23926
f. TXT x23927
f. TXT x23928
f. TXT x23929
f. TXT x23930
f. TXT x23931
f. TXT x23932
f. TXT x23933
f. TXT x23934
f. TXT x23935
; c*y-
f. TXT x23937
f. TXT x23938
f. TXT x23939
f. TXT x23940
f. TXT x23941
f. TXT x23942
f. TXT x23943
f. TXT x23944
f. TXT x23945
f. TXT x23946
f. TXT x23947
f. TXT x23948
f. TXT x23949
f. TXT x23950
f. TXT x23951
f. TXT x23952
f. TXT x23953
f. TXT x23954
f. TXT x23955
f. TXT x23956
f. TXT x23957
f. TXT x23958
f. TXT x23959
f. TXT x23960
f. TXT x23961
f. TXT x23962
f. TXT x23963
f. TXT x23964
f. TXT x23965
f. TXT x23966
f. TXT x23967
f. TXT x23968
f. TXT x23969
f. TXT x23970
f. TXT x23971
f. TXT x23972
f. TXT x23973
f. TXT x23974
f. TXT x23975
f. TXT x23976
f. TXT x23977
f. TXT x23978
f. TXT x23979
f. TXT x23980
f. TXT x23981
f. TXT x23982
f. TXT x23983
f. TXT x23984
f. TXT x23985
f. TXT x23986
f. TXT x23987
f. TXT x23988
f. TXT x23989
f. TXT x23990
f. TXT x23991
f. TXT x23992
f. TXT x23993
f. TXT x23994
f. TXT x23995
f. TXT x23996
f. TXT x23997
f. TXT x23998
f. TXT x23999
*-- NS xc xyxy y0
f. TXT x24001
f. TXT x24002
f. TXT x24003
f. TXT x24004
f. TXT x24005
f. TXT x24006
f. TXT x24007
f. TXT x24008
f. TXT x24009
f. TXT x24010
f. TXT x24011
f. TXT x24012
f. TXT x24013
f. TXT x24014
f. TXT x24015
f. TXT x24016
f. TXT x24017
f. TXT x24018
f. TXT x24019
f. TXT x24020
f. TXT x24021
f. TXT x24022
f. TXT x24023
f. TXT x24024
f. TXT x24025
f. TXT x24026
f. TXT x24027
f. TXT x24028
f. TXT x24029
f. TXT x24030
f. TXT x24031
f. TXT x24032
f. TXT x24033
f. TXT x24034
f. TXT x24035
f. TXT x24036
f. TXT x24037
f. TXT x24038
f. TXT x24039
f. TXT x24040
f. TXT x24041
f. TXT x24042
f. TXT x24043
f. TXT x24044
f. TXT x24045
f. TXT x24046
f. TXT x24047
f. TXT x24048
f. TXT x24049
f. TXT x24050
f. TXT x24051
f. TXT x24052
f. TXT x24053
f. TXT x24054
f. TXT x24055
f. TXT x24056
f. TXT x24057
f. TXT x24058
f. TXT x24059
f. TXT x24060
f. TXT x24061
f. TXT x24062
f. TXT x24063
 TXT 0 0x
f. TXT x24065
f. TXT x24066
f. TXT x24067
f. TXT x24068
f. TXT x24069
f. TXT x24070
f. TXT x24071
f. TXT x24072
f. TXT x24073
f. TXT x24074
f. TXT x24075
f. TXT x24076
f. TXT x24077
f. TXT x24078
f. TXT x24079
f. TXT x24080
f. TXT x24081
f. TXT x24082
f. TXT x24083
f. TXT x24084
f. TXT x24085
f. TXT x24086
f. TXT x24087
f. TXT x24088
f. TXT x24089
f. TXT x24090
f. TXT x24091
f. TXT x24092
f. TXT x24093
f. TXT x24094
f. TXT x24095
f. TXT x24096
f. TXT x24097
f. TXT x24098
f. TXT x24099
f. TXT x24100
f. TXT x24101
f. TXT x24102
f. TXT x24103
f. TXT x24104
f. TXT x24105
f. TXT x24106
f. TXT x24107
f. TXT x24108
f. TXT x24109
f. TXT x24110
f. TXT x24111
f. TXT x24112
f. TXT x24113
f. TXT x24114
f. TXT x24115
f. TXT x24116
f. TXT x24117
f. TXT x24118
f. TXT x24119
f. TXT x24120
f. TXT x24121
f. TXT x24122
f. TXT x24123
f. TXT x24124
f. TXT x24125
f. TXT x24126
f. TXT x24127
$TTL 945111
f. TXT x24129
f. TXT x24130
f. TXT x24131
f. TXT x24132
f. TXT x24133
f. TXT x24134
f. TXT x24135
f. TXT x24136
f. TXT x24137
f. TXT x24138
f. TXT x24139
f. TXT x24140
f. TXT x24141
f. TXT x24142
f. TXT x24143
f. TXT x24144
f. TXT x24145
f. TXT x24146
f. TXT x24147
f. TXT x24148
f. TXT x24149
f. TXT x24150
f. TXT x24151
f. TXT x24152
f. TXT x24153
f. TXT x24154
f. TXT x24155
f. TXT x24156
f. TXT x24157
f. TXT x24158
f. TXT x24159
f. TXT x24160
f. TXT x24161
f. TXT x24162
f. TXT x24163
f. TXT x24164
f. TXT x24165
f. TXT x24166
f. TXT x24167
f. TXT x24168
f. TXT x24169
f. TXT x24170
f. TXT x24171
f. TXT x24172
f. TXT x24173
f. TXT x24174
f. TXT x24175
f. TXT x24176
f. TXT x24177
f. TXT x24178
f. TXT x24179
f. TXT x24180
f. TXT x24181
f. TXT x24182
f. TXT x24183
f. TXT x24184
f. TXT x24185
f. TXT x24186
f. TXT x24187
f. TXT x24188
f. TXT x24189
f. TXT x24190
f. TXT x24191
* TXT y*z0 0
f. TXT x24193
f. TXT x24194
f. TXT x24195
f. TXT x24196
f. TXT x24197
f. TXT x24198
f. TXT x24199
f. TXT x24200
f. TXT x24201
f. TXT x24202
f. TXT x24203
f. TXT x24204
f. TXT x24205
f. TXT x24206
f. TXT x24207
f. TXT x24208
f. TXT x24209
f. TXT x24210
f. TXT x24211
f. TXT x24212
f. TXT x24213
f. TXT x24214
f. TXT x24215
f. TXT x24216
f. TXT x24217
f. TXT x24218
f. TXT x24219
f. TXT x24220
f. TXT x24221
f. TXT x24222
f. TXT x24223
f. TXT x24224
f. TXT x24225
f. TXT x24226
f. TXT x24227
f. TXT x24228
f. TXT x24229
f. TXT x24230
f. TXT x24231
f. TXT x24232
f. TXT x24233
f. TXT x24234
f. TXT x24235
f. TXT x24236
f. TXT x24237
f. TXT x24238
f. TXT x24239
f. TXT x24240
f. TXT x24241
f. TXT x24242
f. TXT x24243
f. TXT x24244
f. TXT x24245
f. TXT x24246
f. TXT x24247
f. TXT x24248
f. TXT x24249
f. TXT x24250
f. TXT x24251
f. TXT x24252
f. TXT x24253
f. TXT x24254
f. TXT x24255
z A cc a*b
f. TXT x24257
f. TXT x24258
f. TXT x24259
f. TXT x24260
f. TXT x24261
f. TXT x24262
f. TXT x24263
f. TXT x24264
f. TXT x24265
f. TXT x24266
f. TXT x24267
f. TXT x24268
f. TXT x24269
f. TXT x24270
f. TXT x24271
f. TXT x24272
f. TXT x24273
f. TXT x24274
f. TXT x24275
f. TXT x24276
f. TXT x24277
f. TXT x24278
f. TXT x24279
f. TXT x24280
f. TXT x24281
f. TXT x24282
f. TXT x24283
f. TXT x24284
f. TXT x24285
f. TXT x24286
f. TXT x24287
f. TXT x24288
f. TXT x24289
f. TXT x24290
f. TXT x24291
f. TXT x24292
f. TXT x24293
f. TXT x24294
f. TXT x24295
f. TXT x24296
f. TXT x24297
f. TXT x24298
f. TXT x24299
f. TXT x24300
f. TXT x24301
f. TXT x24302
f. TXT x24303
f. TXT x24304
f. TXT x24305
f. TXT x24306
f. TXT x24307
f. TXT x24308
f. TXT x24309
f. TXT x24310
f. TXT x24311
f. TXT x24312
f. TXT x24313
f. TXT x24314
f. TXT x24315
f. TXT x24316
f. TXT x24317
f. TXT x24318
f. TXT x24319
c TXT b0b
f. TXT x24321
f. TXT x24322
f. TXT x24323
f. TXT x24324
f. TXT x24325
f. TXT x24326
f. TXT x24327
f. TXT x24328
f. TXT x24329
f. TXT x24330
f. TXT x24331
f. TXT x24332
f. TXT x24333
f. TXT x24334
f. TXT x24335
f. TXT x24336
f. TXT x24337
f. TXT x24338
f. TXT x24339
f. TXT x24340
f. TXT x24341
f. TXT x24342
f. TXT x24343
f. TXT x24344
f. TXT x24345
f. TXT x24346
f. TXT x24347
f. TXT x24348
f. TXT x24349
f. TXT x24350
f. TXT x24351
f. TXT x24352
f. TXT x24353
f. TXT x24354
f. TXT x24355
f. TXT x24356
f. TXT x24357
f. TXT x24358
f. TXT x24359
f. TXT x24360
f. TXT x24361
f. TXT x24362
f. TXT x24363
f. TXT x24364
f. TXT x24365
f. TXT x24366
f. TXT x24367
f. TXT x24368
f. TXT x24369
f. TXT x24370
f. TXT x24371
f. TXT x24372
f. TXT x24373
f. TXT x24374
f. TXT x24375
f. TXT x24376
f. TXT x24377
f. TXT x24378
f. TXT x24379
f. TXT x24380
f. TXT x24381
f. TXT x24382
f. TXT x24383
 TXT azzx * -
f. TXT x24385
f. TXT x24386
f. TXT x24387
f. TXT x24388
f. TXT x24389
f. TXT x24390
f. TXT x24391
f. TXT x24392
f. TXT x24393
f. TXT x24394
f. TXT x24395
f. TXT x24396
f. TXT x24397
f. TXT x24398
f. TXT x24399
f. TXT x24400
f. TXT x24401
f. TXT x24402
f. TXT x24403
f. TXT x24404
f. TXT x24405
f. TXT x24406
f. TXT x24407
f. TXT x24408
f. TXT x24409
f. TXT x24410
f. TXT x24411
f. TXT x24412
f. TXT x24413
f. TXT x24414
f. TXT x24415
f. TXT x24416
f. TXT x24417
f. TXT x24418
f. TXT x24419
f. TXT x24420
f. TXT x24421
f. TXT x24422
f. TXT x24423
f. TXT x24424
f. TXT x24425
f. TXT x24426
f. TXT x24427
f. TXT x24428
f. TXT x24429
f. TXT x24430
f. TXT x24431
f. TXT x24432
f. TXT x24433
f. TXT x24434
f. TXT x24435
f. TXT x24436
f. TXT x24437
f. TXT x24438
f. TXT x24439
f. TXT x24440
f. TXT x24441
f. TXT x24442
f. TXT x24443
f. TXT x24444
f. TXT x24445
f. TXT x24446
f. TXT x24447
$ORIGIN a-*y.
f. TXT x24449
f. TXT x24450
f. TXT x24451
f. TXT x24452
f. TXT x24453
f. TXT x24454
f. TXT x24455
f. TXT x24456
f. TXT x24457
f. TXT x24458
f. TXT x24459
f. TXT x24460
f. TXT x24461
f. TXT x24462
f. TXT x24463
f. TXT x24464
f. TXT x24465
f. TXT x24466
f. TXT x24467
f. TXT x24468
f. TXT x24469
f. TXT x24470
f. TXT x24471
f. TXT x24472
f. TXT x24473
f. TXT x24474
f. TXT x24475
f. TXT x24476
f. TXT x24477
f. TXT x24478
f. TXT x24479
f. TXT x24480
f. TXT x24481
f. TXT x24482
f. TXT x24483
f. TXT x24484
f. TXT x24485
f. TXT x24486
f. TXT x24487
f. TXT x24488
f. TXT x24489
f. TXT x24490
f. TXT x24491
f. TXT x24492
f. TXT x24493
f. TXT x24494
f. TXT x24495
f. TXT x24496
f. TXT x24497
f. TXT x24498
f. TXT x24499
f. TXT x24500
f. TXT x24501
f. TXT x24502
f. TXT x24503
f. TXT x24504
f. TXT x24505
f. TXT x24506
f. TXT x24507
f. TXT x24508
f. TXT x24509
f. TXT x24510
f. TXT x24511
$TTL 10869189
f. TXT x24513
f. TXT x24514
f. TXT x24515
f. TXT x24516
f. TXT x24517
f. TXT x24518
f. TXT x24519
f. TXT x24520
f. TXT x24521
f. TXT x24522
f. TXT x24523
f. TXT x24524
f. TXT x24525
f. TXT x24526
f. TXT x24527
f. TXT x24528
f. TXT x24529
f. TXT x24530
f. TXT x24531
f. TXT x24532
f. TXT x24533
f. TXT x24534
f. TXT x24535
f. TXT x24536
f. TXT x24537
f. TXT x24538
f. TXT x24539
f. TXT x24540
f. TXT x24541
f. TXT x24542
f. TXT x24543
f. TXT x24544
f. TXT x24545
f. TXT x24546
f. TXT x24547
f. TXT x24548
f. TXT x24549
f. TXT x24550
f. TXT x24551
f. TXT x24552
f. TXT x24553
f. TXT x24554
f. TXT x24555
f. TXT x24556
f. TXT x24557
f. TXT x24558
f. TXT x24559
f. TXT x24560
f. TXT x24561
f. TXT x24562
f. TXT x24563
f. TXT x24564
f. TXT x24565
f. TXT x24566
f. TXT x24567
f. TXT x24568
f. TXT x24569
f. TXT x24570
f. TXT x24571
f. TXT x24572
f. TXT x24573
f. TXT x24574
f. TXT x24575
y-*-.azbz. A -z
f. TXT x24577
f. TXT x24578
f. TXT x24579
f. TXT x24580
f. TXT x24581
f. TXT x24582
f. TXT x24583
f. TXT x24584
f. TXT x24585
f. TXT x24586
f. TXT x24587
f. TXT x24588
f. TXT x24589
f. TXT x24590
f. TXT x24591
f. TXT x24592
f. TXT x24593
f. TXT x24594
f. TXT x24595
f. TXT x24596
f. TXT x24597
f. TXT x24598
f. TXT x24599
f. TXT x24600
f. TXT x24601
f. TXT x24602
f. TXT x24603
f. TXT x24604
f. TXT x24605
f. TXT x24606
f. TXT x24607
f. TXT x24608
f. TXT x24609
f. TXT x24610
f. TXT x24611
f. TXT x24612
f. TXT x24613
f. TXT x24614
f. TXT x24615
f. TXT x24616
f. TXT x24617
f. TXT x24618
f. TXT x24619
f. TXT x24620
f. TXT x24621
f. TXT x24622
f. TXT x24623
f. TXT x24624
f. TXT x24625
f. TXT x24626
f. TXT x24627
f. TXT x24628
f. TXT x24629
f. TXT x24630
f. TXT x24631
f. TXT x24632
f. TXT x24633
f. TXT x24634
f. TXT x24635
f. TXT x24636
f. TXT x24637
f. TXT x24638
f. TXT x24639
 NS 0
f. TXT x24641
f. TXT x24642
f. TXT x24643
f. TXT x24644
f. TXT x24645
f. TXT x24646
f. TXT x24647
f. TXT x24648
f. TXT x24649
f. TXT x24650
f. TXT x24651
f. TXT x24652
f. TXT x24653
f. TXT x24654
f. TXT x24655
f. TXT x24656
f. TXT x24657
f. TXT x24658
f. TXT x24659
f. TXT x24660
f. TXT x24661
f. TXT x24662
f. TXT x24663
f. TXT x24664
f. TXT x24665
f. TXT x24666
f. TXT x24667
f. TXT x24668
f. TXT x24669
f. TXT x24670
f. TXT x24671
f. TXT x24672
f. TXT x24673
f. TXT x24674
f. TXT x24675
f. TXT x24676
f. TXT x24677
f. TXT x24678
f. TXT x24679
f. TXT x24680
f. TXT x24681
f. TXT x24682
f. TXT x24683
f. TXT x24684
f. TXT x24685
f. TXT x24686
f. TXT x24687
f. TXT x24688
f. TXT x24689
f. TXT x24690
f. TXT x24691
f. TXT x24692
f. TXT x24693
f. TXT x24694
f. TXT x24695
f. TXT x24696
f. TXT x24697
f. TXT x24698
f. TXT x24699
f. TXT x24700
f. TXT x24701
f. TXT x24702
f. TXT x24703
@ TXT *
f. TXT x24705
f. TXT x24706
f. TXT x24707
f. TXT x24708
f. TXT x24709
f. TXT x24710
f. TXT x24711
f. TXT x24712
f. TXT x24713
f. TXT x24714
f. TXT x24715
f. TXT x24716
f. TXT x24717
f. TXT x24718
f. TXT x24719
f. TXT x24720
f. TXT x24721
f. TXT x24722
f. TXT x24723
f. TXT x24724
f. TXT x24725
f. TXT x24726
f. TXT x24727
f. TXT x24728
f. TXT x24729
f. TXT x24730
f. TXT x24731
f. TXT x24732
f. TXT x24733
f. TXT x24734
f. TXT x24735
f. TXT x24736
f. TXT x24737
f. TXT x24738
f. TXT x24739
f. TXT x24740
f. TXT x24741
f. TXT x24742
f. TXT x24743
f. TXT x24744
f. TXT x24745
f. TXT x24746
f. TXT x24747
f. TXT x24748
f. TXT x24749
f. TXT x24750
f. TXT x24751
f. TXT x24752
f. TXT x24753
f. TXT x24754
f. TXT x24755
f. TXT x24756
f. TXT x24757
f. TXT x24758
f. TXT x24759
f. TXT x24760
f. TXT x24761
f. TXT x24762
f. TXT x24763
f. TXT x24764
f. TXT x24765
f. TXT x24766
f. TXT x24767
@ TXT z y*0
f. TXT x24769
f. TXT x24770
f. TXT x24771
f. TXT x24772
f. TXT x24773
f. TXT x24774
f. TXT x24775
f. TXT x24776
f. TXT x24777
f. TXT x24778
f. TXT x24779
f. TXT x24780
f. TXT x24781
f. TXT x24782
f. TXT x24783
f. TXT x24784
f. TXT x24785
f. TXT x24786
f. TXT x24787
f. TXT x24788
f. TXT x24789
f. TXT x24790
f. TXT x24791
f. TXT x24792
f. TXT x24793
f. TXT x24794
f. TXT x24795
f. TXT x24796
f. TXT x24797
f. TXT x24798
f. TXT x24799
f. TXT x24800
f. TXT x24801
f. TXT x24802
f. TXT x24803
f. TXT x24804
f. TXT x24805
f. TXT x24806
f. TXT x24807
f. TXT x24808
f. TXT x24809
f. TXT x24810
f. TXT x24811
f. TXT x24812
f. TXT x24813
f. TXT x24814
f. TXT x24815
f. TXT x24816
f. TXT x24817
f. TXT x24818
f. TXT x24819
f. TXT x24820
f. TXT x24821
f. TXT x24822
f. TXT x24823
f. TXT x24824
f. TXT x24825
f. TXT x24826
f. TXT x24827
f. TXT x24828
f. TXT x24829
f. TXT x24830
f. TXT x24831
y0. A c x0y c
f. TXT x24833
f. TXT x24834
f. TXT x24835
f. TXT x24836
f. TXT x24837
f. TXT x24838
f. TXT x24839
f. TXT x24840
f. TXT x24841
f. TXT x24842
f. TXT x24843
f. TXT x24844
f. TXT x24845
f. TXT x24846
f. TXT x24847
f. TXT x24848
f. TXT x24849
f. TXT x24850
f. TXT x24851
f. TXT x24852
f. TXT x24853
f. TXT x24854
f. TXT x24855
f. TXT x24856
f. TXT x24857
f. TXT x24858
f. TXT x24859
f. TXT x24860
f. TXT x24861
f. TXT x24862
f. TXT x24863
f. TXT x24864
f. TXT x24865
f. TXT x24866
f. TXT x24867
f. TXT x24868
f. TXT x24869
f. TXT x24870
f. TXT x24871
f. TXT x24872
f. TXT x24873
f. TXT x24874
f. TXT x24875
f. TXT x24876
f. TXT x24877
f. TXT x24878
f. TXT x24879
f. TXT x24880
f. TXT x24881
f. TXT x24882
f. TXT x24883
f. TXT x24884
f. TXT x24885
f. TXT x24886
f. TXT x24887
f. TXT x24888
f. TXT x24889
f. TXT x24890
f. TXT x24891
f. TXT x24892
f. TXT x24893
f. TXT x24894
f. TXT x24895
$ORIGIN -.
f. TXT x24897
f. TXT x24898
f. TXT x24899
f. TXT x24900
f. TXT x24901
f. TXT x24902
f. TXT x24903
f. TXT x24904
f. TXT x24905
f. TXT x24906
f. TXT x24907
f. TXT x24908
f. TXT x24909
f. TXT x24910
f. TXT x24911
f. TXT x24912
f. TXT x24913
f. TXT x24914
f. TXT x24915
f. TXT x24916
f. TXT x24917
f. TXT x24918
f. TXT x24919
f. TXT x24920
f. TXT x24921
f. TXT x24922
f. TXT x24923
f. TXT x24924
f. TXT x24925
f. TXT x24926
f. TXT x24927
f. TXT x24928
f. TXT x24929
f. TXT x24930
f. TXT x24931
f. TXT x24932
f. TXT x24933
f. TXT x24934
f. TXT x24935
f. TXT x24936
f. TXT x24937
f. TXT x24938
f. TXT x24939
f. TXT x24940
f. TXT x24941
f. TXT x24942
f. TXT x24943
f. TXT x24944
f. TXT x24945
f. TXT x24946
f. TXT x24947
f. TXT x24948
f. TXT x24949
f. TXT x24950
f. TXT x24951
f. TXT x24952
f. TXT x24953
f. TXT x24954
f. TXT x24955
f. TXT x24956
f. TXT x24957
f. TXT x24958
f. TXT x24959
 A * c ab0
f. TXT x24961
f. TXT x24962
f. TXT x24963
f. TXT x24964
f. TXT x24965
f. TXT x24966
f. TXT x24967
f. TXT x24968
f. TXT x24969
f. TXT x24970
f. TXT x24971
f. TXT x24972
f. TXT x24973
f. TXT x24974
f. TXT x24975
f. TXT x24976
f. TXT x24977
f. TXT x24978
f. TXT x24979
f. TXT x24980
f. TXT x24981
f. TXT x24982
f. TXT x24983
f. TXT x24984
f. TXT x24985
f. TXT x24986
f. TXT x24987
f. TXT x24988
f. TXT x24989
f. TXT x24990
f. TXT x24991
f. TXT x24992
f. TXT x24993
f. TXT x24994
f. TXT x24995
f. TXT x24996
f. TXT x24997
f. TXT x24998
f. TXT x24999
f. TXT x25000
f. TXT x25001
f. TXT x25002
f. TXT x25003
f. TXT x25004
f. TXT x25005
f. TXT x25006
f. TXT x25007
f. TXT x25008
f. TXT x25009
f. TXT x25010
f. TXT x25011
f. TXT x25012
f. TXT x25013
f. TXT x25014
f. TXT x25015
f. TXT x25016
f. TXT x25017
f. TXT x25018
f. TXT x25019
f. TXT x25020
f. TXT x25021
f. TXT x25022
f. TXT x25023
0 TXT -zy b
f. TXT x25025
f. TXT x25026
f. TXT x25027
f. TXT x25028
f. TXT x25029
f. TXT x25030
f. TXT x25031
f. TXT x25032
f. TXT x25033
f. TXT x25034
f. TXT x25035
f. TXT x25036
f. TXT x25037
f. TXT x25038
f. TXT x25039
f. TXT x25040
f. TXT x25041
f. TXT x25042
f. TXT x25043
f. TXT x25044
f. TXT x25045
f. TXT x25046
f. TXT x25047
f. TXT x25048
f. TXT x25049
f. TXT x25050
f. TXT x25051
f. TXT x25052
f. TXT x25053
f. TXT x25054
f. TXT x25055
f. TXT x25056
f. TXT x25057
f. TXT x25058
f. TXT x25059
f. TXT x25060
f. TXT x25061
f. TXT x25062
f. TXT x25063
f. TXT x25064
f. TXT x25065
f. TXT x25066
f. TXT x25067
f. TXT x25068
f. TXT x25069
f. TXT x25070
f. TXT x25071
f. TXT x25072
f. TXT x25073
f. TXT x25074
f. TXT x25075
f. TXT x25076
f. TXT x25077
f. TXT x25078
f. TXT x25079
f. TXT x25080
f. TXT x25081
f. TXT x25082
f. TXT x25083
f. TXT x25084
f. TXT x25085
f. TXT x25086
f. TXT x25087
@ NS cyza b*a
f. TXT x25089
f. TXT x25090
f. TXT x25091
f. TXT x25092
f. TXT x25093
f. TXT x25094
f. TXT x25095
f. TXT x25096
f. TXT x25097
f. TXT x25098
f. TXT x25099
f. TXT x25100
f. TXT x25101
f. TXT x25102
f. TXT x25103
f. TXT x25104
f. TXT x25105
f. TXT x25106
f. TXT x25107
f. TXT x25108
f. TXT x25109
f. TXT x25110
f. TXT x25111
f. TXT x25112
f. TXT x25113
f. TXT x25114
f. TXT x25115
f. TXT x25116
f. TXT x25117
f. TXT x25118
f. TXT x25119
f. TXT x25120
f. TXT x25121
f. TXT x25122
f. TXT x25123
f. TXT x25124
f. TXT x25125
f. TXT x25126
f. TXT x25127
f. TXT x25128
f. TXT x25129
f. TXT x25130
f. TXT x25131
f. TXT x25132
f. TXT x25133
f. TXT x25134
f. TXT x25135
f. TXT x25136
f. TXT x25137
f. TXT x25138
f. TXT x25139
f. TXT x25140
f. TXT x25141
f. TXT x25142
f. TXT x25143
f. TXT x25144
f. TXT x25145
f. TXT x25146
f. TXT x25147
f. TXT x25148
f. TXT x25149
f. TXT x25150
f. TXT x25151
*zx.yz. A zz b0 bzxz
f. TXT x25153
f. TXT x25154
f. TXT x25155
f. TXT x25156
f. TXT x25157
f. TXT x25158
f. TXT x25159
f. TXT x25160
f. TXT x25161
f. TXT x25162
f. TXT x25163
f. TXT x25164
f. TXT x25165
f. TXT x25166
f. TXT x25167
f. TXT x25168
f. TXT x25169
f. TXT x25170
f. TXT x25171
f. TXT x25172
f. TXT x25173
f. TXT x25174
f. TXT x25175
f. TXT x25176
f. TXT x25177
f. TXT x25178
f. TXT x25179
f. TXT x25180
f. TXT x25181
f. TXT x25182
f. TXT x25183
f. TXT x25184
f. TXT x25185
f. TXT x25186
f. TXT x25187
f. TXT x25188
f. TXT x25189
f. TXT x25190
f. TXT x25191
f. TXT x25192
f. TXT x25193
f. TXT x25194
f. TXT x25195
f. TXT x25196
f. TXT x25197
f. TXT x25198
f. TXT x25199
f. TXT x25200
f. TXT x25201
f. TXT x25202
f. TXT x25203
f. TXT x25204
f. TXT x25205
f. TXT x25206
f. TXT x25207
f. TXT x25208
f. TXT x25209
f. TXT x25210
f. TXT x25211
f. TXT x25212
f. TXT x25213
f. TXT x25214
f. TXT x25215
 NS zyx x*
f. TXT x25217
f. TXT x25218
f. TXT x25219
f. TXT x25220
f. TXT x25221
f. TXT x25222
f. TXT x25223
f. TXT x25224
f. TXT x25225
f. TXT x25226
f. TXT x25227
f. TXT x25228
f. TXT x25229
f. TXT x25230
f. TXT x25231
f. TXT x25232
f. TXT x25233
f. TXT x25234
f. TXT x25235
f. TXT x25236
f. TXT x25237
f. TXT x25238
f. TXT x25239
f. TXT x25240
f. TXT x25241
f. TXT x25242
f. TXT x25243
f. TXT x25244
f. TXT x25245
f. TXT x25246
f. TXT x25247
f. TXT x25248
f. TXT x25249
f. TXT x25250
f. TXT x25251
f. TXT x25252
f. TXT x25253
f. TXT x25254
f. TXT x25255
f. TXT x25256
f. TXT x25257
f. TXT x25258
f. TXT x25259
f. TXT x25260
f. TXT x25261
f. TXT x25262
f. TXT x25263
f. TXT x25264
f. TXT x25265
f. TXT x25266
f. TXT x25267
f. TXT x25268
f. TXT x25269
f. TXT x25270
f. TXT x25271
f. TXT x25272
f. TXT x25273
f. TXT x25274
f. TXT x25275
f. TXT x25276
f. TXT x25277
f. TXT x25278
f. TXT x25279

f. TXT x25281
f. TXT x25282
f. TXT x25283
f. TXT x25284
f. TXT x25285
f. TXT x25286
f. TXT x25287
f. TXT x25288
f. TXT x25289
f. TXT x25290
f. TXT x25291
f. TXT x25292
f. TXT x25293
f. TXT x25294
f. TXT x25295
f. TXT x25296
f. TXT x25297
f. TXT x25298
f. TXT x25299
f. TXT x25300
f. TXT x25301
f. TXT x25302
f. TXT x25303
f. TXT x25304
f. TXT x25305
f. TXT x25306
f. TXT x25307
f. TXT x25308
f. TXT x25309
f. TXT x25310
f. TXT x25311
f. TXT x25312
f. TXT x25313
f. TXT x25314
f. TXT x25315
f. TXT x25316
f. TXT x25317
f. TXT x25318
f. TXT x25319
f. TXT x25320
f. TXT x25321
f. TXT x25322
f. TXT x25323
f. TXT x25324
f. TXT x25325
f. TXT x25326
f. TXT x25327
f. TXT x25328
f. TXT x25329
f. TXT x25330
f. TXT x25331
f. TXT x25332
f. TXT x25333
f. TXT x25334
f. TXT x25335
f. TXT x25336
f. TXT x25337
f. TXT x25338
f. TXT x25339
f. TXT x25340
f. TXT x25341
f. TXT x25342
f. TXT x25343

f. TXT x25345
f. TXT x25346
f. TXT x25347
f. TXT x25348
f. TXT x25349
f. TXT x25350
f. TXT x25351
f. TXT x25352
f. TXT x25353
f. TXT x25354
f. TXT x25355
f. TXT x25356
f. TXT x25357
f. TXT x25358
f. TXT x25359
f. TXT x25360
f. TXT x25361
f. TXT x25362
f. TXT x25363
f. TXT x25364
f. TXT x25365
f. TXT x25366
f. TXT x25367
f. TXT x25368
f. TXT x25369
f. TXT x25370
f. TXT x25371
f. TXT x25372
f. TXT x25373
f. TXT x25374
f. TXT x25375
f. TXT x25376
f. TXT x25377
f. TXT x25378
f. TXT x25379
f. TXT x25380
f. TXT x25381
f. TXT x25382
f. TXT x25383
f. TXT x25384
f. TXT x25385
f. TXT x25386
f. TXT x25387
f. TXT x25388
f. TXT x25389
f. TXT x25390
f. TXT x25391
f. TXT x25392
f. TXT x25393
f. TXT x25394
f. TXT x25395
f. TXT x25396
f. TXT x25397
f. TXT x25398
f. TXT x25399
f. TXT x25400
f. TXT x25401
f. TXT x25402
f. TXT x25403
f. TXT x25404
f. TXT x25405
f. TXT x25406
f. TXT x25407
@ NS *
f. TXT x25409
f. TXT x25410
f. TXT x25411
f. TXT x25412
f. TXT x25413
f. TXT x25414
f. TXT x25415
f. TXT x25416
f. TXT x25417
f. TXT x25418
f. TXT x25419
f. TXT x25420
f. TXT x25421
f. TXT x25422
f. TXT x25423
f. TXT x25424
f. TXT x25425
f. TXT x25426
f. TXT x25427
f. TXT x25428
f. TXT x25429
f. TXT x25430
f. TXT x25431
f. TXT x25432
f. TXT x25433
f. TXT x25434
f. TXT x25435
f. TXT x25436
f. TXT x25437
f. TXT x25438
f. TXT x25439
f. TXT x25440
f. TXT x25441
f. TXT x25442
f. TXT x25443
f. TXT x25444
f. TXT x25445
f. TXT x25446
f. TXT x25447
f. TXT x25448
f. TXT x25449
f. TXT x25450
f. TXT x25451
f. TXT x25452
f. TXT x25453
f. TXT x25454
f. TXT x25455
f. TXT x25456
f. TXT x25457
f. TXT x25458
f. TXT x25459
f. TXT x25460
f. TXT x25461
f. TXT x25462
f. TXT x25463
f. TXT x25464
f. TXT x25465
f. TXT x25466
f. TXT x25467
f. TXT x25468
f. TXT x25469
f. TXT x25470
f. TXT x25471
 NS 0yy
f. TXT x25473
f. TXT x25474
f. TXT x25475
f. TXT x25476
f. TXT x25477
f. TXT x25478
f. TXT x25479
f. TXT x25480
f. TXT x25481
f. TXT x25482
f. TXT x25483
f. TXT x25484
f. TXT x25485
f. TXT x25486
f. TXT x25487
f. TXT x25488
f. TXT x25489
f. TXT x25490
f. TXT x25491
f. TXT x25492
f. TXT x25493
f. TXT x25494
f. TXT x25495
f. TXT x25496
f. TXT x25497
f. TXT x25498
f. TXT x25499
f. TXT x25500
f. TXT x25501
f. TXT x25502
f. TXT x25503
f. TXT x25504
f. TXT x25505
f. TXT x25506
f. TXT x25507
f. TXT x25508
f. TXT x25509
f. TXT x25510
f. TXT x25511
f. TXT x25512
f. TXT x25513
f. TXT x25514
f. TXT x25515
f. TXT x25516
f. TXT x25517
f. TXT x25518
f. TXT x25519
f. TXT x25520
f. TXT x25521
f. TXT x25522
f. TXT x25523
f. TXT x25524
f. TXT x25525
f. TXT x25526
f. TXT x25527
f. TXT x25528
f. TXT x25529
f. TXT x25530
f. TXT x25531
f. TXT x25532
f. TXT x25533
f. TXT x25534
f. TXT x25535
cy A -cb b**
f. TXT x25537
f. TXT x25538
f. TXT x25539
f. TXT x25540
f. TXT x25541
f. TXT x25542
f. TXT x25543
f. TXT x25544
f. TXT x25545
f. TXT x25546
f. TXT x25547
f. TXT x25548
f. TXT x25549
f. TXT x25550
f. TXT x25551
f. TXT x25552
f. TXT x25553
f. TXT x25554
f. TXT x25555
f. TXT x25556
f. TXT x25557
f. TXT x25558
f. TXT x25559
f. TXT x25560
f. TXT x25561
f. TXT x25562
f. TXT x25563
f. TXT x25564
f. TXT x25565
f. TXT x25566
f. TXT x25567
f. TXT x25568
f. TXT x25569
f. TXT x25570
f. TXT x25571
f. TXT x25572
f. TXT x25573
f. TXT x25574
f. TXT x25575
f. TXT x25576
f. TXT x25577
f. TXT x25578
f. TXT x25579
f. TXT x25580
f. TXT x25581
f. TXT x25582
f. TXT x25583
f. TXT x25584
f. TXT x25585
f. TXT x25586
f. TXT x25587
f. TXT x25588
f. TXT x25589
f. TXT x25590
f. TXT x25591
f. TXT x25592
f. TXT x25593
f. TXT x25594
f. TXT x25595
f. TXT x25596
f. TXT x25597
f. TXT x25598
f. TXT x25599
c** NS a zx --bb
f. TXT x25601
f. TXT x25602
f. TXT x25603
f. TXT x25604
f. TXT x25605
f. TXT x25606
f. TXT x25607
f. TXT x25608
f. TXT x25609
f. TXT x25610
f. TXT x25611
f. TXT x25612
f. TXT x25613
f. TXT x25614
f. TXT x25615
f. TXT x25616
f. TXT x25617
f. TXT x25618
f. TXT x25619
f. TXT x25620
f. TXT x25621
f. TXT x25622
f. TXT x25623
f. TXT x25624
f. TXT x25625
f. TXT x25626
f. TXT x25627
f. TXT x25628
f. TXT x25629
f. TXT x25630
f. TXT x25631
f. TXT x25632
f. TXT x25633
f. TXT x25634
f. TXT x25635
f. TXT x25636
f. TXT x25637
f. TXT x25638
f. TXT x25639
f. TXT x25640
f. TXT x25641
f. TXT x25642
f. TXT x25643
f. TXT x25644
f. TXT x25645
f. TXT x25646
f. TXT x25647
f. TXT x25648
f. TXT x25649
f. TXT x25650
f. TXT x25651
f. TXT x25652
f. TXT x25653
f. TXT x25654
f. TXT x25655
f. TXT x25656
f. TXT x25657
f. TXT x25658
f. TXT x25659
f. TXT x25660
f. TXT x25661
f. TXT x25662
f. TXT x25663
 TXT ba - -a-z
f. TXT x25665
f. TXT x25666
f. TXT x25667
f. TXT x25668
f. TXT x25669
f. TXT x25670
f. TXT x25671
f. TXT x25672
f. TXT x25673
f. TXT x25674
f. TXT x25675
f. TXT x25676
f. TXT x25677
f. TXT x25678
f. TXT x25679
f. TXT x25680
f. TXT x25681
f. TXT x25682
f. TXT x25683
f. TXT x25684
f. TXT x25685
f. TXT x25686
f. TXT x25687
f. TXT x25688
f. TXT x25689
f. TXT x25690
f. TXT x25691
f. TXT x25692
f. TXT x25693
f. TXT x25694
f. TXT x25695
f. TXT x25696
f. TXT x25697
f. TXT x25698
f. TXT x25699
f. TXT x25700
f. TXT x25701
f. TXT x25702
f. TXT x25703
f. TXT x25704
f. TXT x25705
f. TXT x25706
f. TXT x25707
f. TXT x25708
f. TXT x25709
f. TXT x25710
f. TXT x25711
f. TXT x25712
f. TXT x25713
f. TXT x25714
f. TXT x25715
f. TXT x25716
f. TXT x25717
f. TXT x25718
f. TXT x25719
f. TXT x25720
f. TXT x25721
f. TXT x25722
f. TXT x25723
f. TXT x25724
f. TXT x25725
f. TXT x25726
f. TXT x25727
@ NS b-
f. TXT x25729
f. TXT x25730
f. TXT x25731
f. TXT x25732
f. TXT x25733
f. TXT x25734
f. TXT x25735
f. TXT x25736
f. TXT x25737
f. TXT x25738
f. TXT x25739
f. TXT x25740
f. TXT x25741
f. TXT x25742
f. TXT x25743
f. TXT x25744
f. TXT x25745
f. TXT x25746
f. TXT x25747
f. TXT x25748
f. TXT x25749
f. TXT x25750
f. TXT x25751
f. TXT x25752
f. TXT x25753
f. TXT x25754
f. TXT x25755
f. TXT x25756
f. TXT x25757
f. TXT x25758
f. TXT x25759
f. TXT x25760
f. TXT x25761
f. TXT x25762
f. TXT x25763
f. TXT x25764
f. TXT x25765
f. TXT x25766
f. TXT x25767
f. TXT x25768
f. TXT x25769
f. TXT x25770
f. TXT x25771
f. TXT x25772
f. TXT x25773
f. TXT x25774
f. TXT x25775
f. TXT x25776
f. TXT x25777
f. TXT x25778
f. TXT x25779
f. TXT x25780
f. TXT x25781
f. TXT x25782
f. TXT x25783
f. TXT x25784
f. TXT x25785
f. TXT x25786
f. TXT x25787
f. TXT x25788
f. TXT x25789
f. TXT x25790
f. TXT x25791
 A vvvvvvvvvvvvvvvvvvvv bb
f. TXT x25793
f. TXT x25794
f. TXT x25795
f. TXT x25796
f. TXT x25797
f. TXT x25798
f. TXT x25799
f. TXT x25800
f. TXT x25801
f. TXT x25802
f. TXT x25803
f. TXT x25804
f. TXT x25805
f. TXT x25806
f. TXT x25807
f. TXT x25808
f. TXT x25809
f. TXT x25810
f. TXT x25811
f. TXT x25812
f. TXT x25813
f. TXT x25814
f. TXT x25815
f. TXT x25816
f. TXT x25817
f. TXT x25818
f. TXT x25819
f. TXT x25820
f. TXT x25821
f. TXT x25822
f. TXT x25823
f. TXT x25824
f. TXT x25825
f. TXT x25826
f. TXT x25827
f. TXT x25828
f. TXT x25829
f. TXT x25830
f. TXT x25831
f. TXT x25832
f. TXT x25833
f. TXT x25834
f. TXT x25835
f. TXT x25836
f. TXT x25837
f. TXT x25838
f. TXT x25839
f. TXT x25840
f. TXT x25841
f. TXT x25842
f. TXT x25843
f. TXT x25844
f. TXT x25845
f. TXT x25846
f. TXT x25847
f. TXT x25848
f. TXT x25849
f. TXT x25850
f. TXT x25851
f. TXT x25852
f. TXT x25853
f. TXT x25854
f. TXT x25855
$ORIGIN b.
f. TXT x25857
f. TXT x25858
f. TXT x25859
f. TXT x25860
f. TXT x25861
f. TXT x25862
f. TXT x25863
f. TXT x25864
f. TXT x25865
f. TXT x25866
f. TXT x25867
f. TXT x25868
f. TXT x25869
f. TXT x25870
f. TXT x25871
f. TXT x25872
f. TXT x25873
f. TXT x25874
f. TXT x25875
f. TXT x25876
f. TXT x25877
f. TXT x25878
f. TXT x25879
f. TXT x25880
f. TXT x25881
f. TXT x25882
f. TXT x25883
f. TXT x25884
f. TXT x25885
f. TXT x25886
f. TXT x25887
f. TXT x25888
f. TXT x25889
f. TXT x25890
f. TXT x25891
f. TXT x25892
f. TXT x25893
f. TXT x25894
f. TXT x25895
f. TXT x25896
f. TXT x25897
f. TXT x25898
f. TXT x25899
f. TXT x25900
f. TXT x25901
f. TXT x25902
f. TXT x25903
f. TXT x25904
f. TXT x25905
f. TXT x25906
f. TXT x25907
f. TXT x25908
f. TXT x25909
f. TXT x25910
f. TXT x25911
f. TXT x25912
f. TXT x25913
f. TXT x25914
f. TXT x25915
f. TXT x25916
f. TXT x25917
f. TXT x25918
f. TXT x25919

f. TXT x25921
f. TXT x25922
f. TXT x25923
f. TXT x25924
f. TXT x25925
f. TXT x25926
f. TXT x25927
f. TXT x25928
f. TXT x25929
f. TXT x25930
f. TXT x25931
f. TXT x25932
f. TXT x25933
f. TXT x25934
f. TXT x25935
f. TXT x25936
f. TXT x25937
f. TXT x25938
f. TXT x25939
f. TXT x25940
f. TXT x25941
f. TXT x25942
f. TXT x25943
f. TXT x25944
f. TXT x25945
f. TXT x25946
f. TXT x25947
f. TXT x25948
f. TXT x25949
f. TXT x25950
f. TXT x25951
f. TXT x25952
f. TXT x25953
f. TXT x25954
f. TXT x25955
f. TXT x25956
f. TXT x25957
f. TXT x25958
f. TXT x25959
f. TXT x25960
f. TXT x25961
f. TXT x25962
f. TXT x25963
f. TXT x25964
f. TXT x25965
f. TXT x25966
f. TXT x25967
f. TXT x25968
f. TXT x25969
f. TXT x25970
f. TXT x25971
f. TXT x25972
f. TXT x25973
f. TXT x25974
f. TXT x25975
f. TXT x25976
f. TXT x25977
f. TXT x25978
f. TXT x25979
f. TXT x25980
f. TXT x25981
f. TXT x25982
f. TXT x25983
ccxy TXT y- a yc*c
f. TXT x25985
f. TXT x25986
f. TXT x25987
f. TXT x25988
f. TXT x25989
f. TXT x25990
f. TXT x25991
f. TXT x25992
f. TXT x25993
f. TXT x25994
f. TXT x25995
f. TXT x25996
f. TXT x25997
f. TXT x25998
f. TXT x25999
f. TXT x26000
f. TXT x26001
f. TXT x26002
f. TXT x26003
f. TXT x26004
f. TXT x26005
f. TXT x26006
f. TXT x26007
f. TXT x26008
f. TXT x26009
f. TXT x26010
f. TXT x26011
f. TXT x26012
f. TXT x26013
f. TXT x26014
f. TXT x26015
f. TXT x26016
f. TXT x26017
f. TXT x26018
f. TXT x26019
f. TXT x26020
f. TXT x26021
f. TXT x26022
f. TXT x26023
f. TXT x26024
f. TXT x26025
f. TXT x26026
f. TXT x26027
f. TXT x26028
f. TXT x26029
f. TXT x26030
f. TXT x26031
f. TXT x26032
f. TXT x26033
f. TXT x26034
f. TXT x26035
f. TXT x26036
f. TXT x26037
f. TXT x26038
f. TXT x26039
f. TXT x26040
f. TXT x26041
f. TXT x26042
f. TXT x26043
f. TXT x26044
f. TXT x26045
f. TXT x26046
f. TXT x26047
@ NS *z*
f. TXT x26049
f. TXT x26050
f. TXT x26051
f. TXT x26052
f. TXT x26053
f. TXT x26054
f. TXT x26055
f. TXT x26056
f. TXT x26057
f. TXT x26058
f. TXT x26059
f. TXT x26060
f. TXT x26061
f. TXT x26062
f. TXT x26063
f. TXT x26064
f. TXT x26065
f. TXT x26066
f. TXT x26067
f. TXT x26068
f. TXT x26069
f. TXT x26070
f. TXT x26071
f. TXT x26072
f. TXT x26073
f. TXT x26074
f. TXT x26075
f. TXT x26076
f. TXT x26077
f. TXT x26078
f. TXT x26079
f. TXT x26080
f. TXT x26081
f. TXT x26082
f. TXT x26083
f. TXT x26084
f. TXT x26085
f. TXT x26086
f. TXT x26087
f. TXT x26088
f. TXT x26089
f. TXT x26090
f. TXT x26091
f. TXT x26092
f. TXT x26093
f. TXT x26094
f. TXT x26095
f. TXT x26096
f. TXT x26097
f. TXT x26098
f. TXT x26099
f. TXT x26100
f. TXT x26101
f. TXT x26102
f. TXT x26103
f. TXT x26104
f. TXT x26105
f. TXT x26106
f. TXT x26107
f. TXT x26108
f. TXT x26109
f. TXT x26110
f. TXT x26111
zyb NS - ya *c
f. TXT x26113
f. TXT x26114
f. TXT x26115
f. TXT x26116
f. TXT x26117
f. TXT x26118
f. TXT x26119
f. TXT x26120
f. TXT x26121
f. TXT x26122
f. TXT x26123
f. TXT x26124
f. TXT x26125
f. TXT x26126
f. TXT x26127
f. TXT x26128
f. TXT x26129
f. TXT x26130
f. TXT x26131
f. TXT x26132
f. TXT x26133
f. TXT x26134
f. TXT x26135
f. TXT x26136
f. TXT x26137
f. TXT x26138
f. TXT x26139
f. TXT x26140
f. TXT x26141
f. TXT x26142
f. TXT x26143
f. TXT x26144
f. TXT x26145
f. TXT x26146
f. TXT x26147
f. TXT x26148
f. TXT x26149
f. TXT x26150
f. TXT x26151
f. TXT x26152
f. TXT x26153
f. TXT x26154
f. TXT x26155
f. TXT x26156
f. TXT x26157
f. TXT x26158
f. TXT x26159
f. TXT x26160
f. TXT x26161
f. TXT x26162
f. TXT x26163
f. TXT x26164
f. TXT x26165
f. TXT x26166
f. TXT x26167
f. TXT x26168
f. TXT x26169
f. TXT x26170
f. TXT x26171
f. TXT x26172
f. TXT x26173
f. TXT x26174
f. TXT x26175
*x** NS - zcab czac
f. TXT x26177
f. TXT x26178
f. TXT x26179
f. TXT x26180
f. TXT x26181
f. TXT x26182
f. TXT x26183
f. TXT x26184
f. TXT x26185
f. TXT x26186
f. TXT x26187
f. TXT x26188
f. TXT x26189
f. TXT x26190
f. TXT x26191
f. TXT x26192
f. TXT x26193
f. TXT x26194
f. TXT x26195
f. TXT x26196
f. TXT x26197
f. TXT x26198
f. TXT x26199
f. TXT x26200
f. TXT x26201
f. TXT x26202
f. TXT x26203
f. TXT x26204
f. TXT x26205
f. TXT x26206
f. TXT x26207
f. TXT x26208
f. TXT x26209
f. TXT x26210
f. TXT x26211
f. TXT x26212
f. TXT x26213
f. TXT x26214
f. TXT x26215
f. TXT x26216
f. TXT x26217
f. TXT x26218
f. TXT x26219
f. TXT x26220
f. TXT x26221
f. TXT x26222
f. TXT x26223
f. TXT x26224
f. TXT x26225
f. TXT x26226
f. TXT x26227
f. TXT x26228
f. TXT x26229
f. TXT x26230
f. TXT x26231
f. TXT x26232
f. TXT x26233
f. TXT x26234
f. TXT x26235
f. TXT x26236
f. TXT x26237
f. TXT x26238
f. TXT x26239
; -0a
f. TXT x26241
f. TXT x26242
f. TXT x26243
f. TXT x26244
f. TXT x26245
f. TXT x26246
f. TXT x26247
f. TXT x26248
f. TXT x26249
f. TXT x26250
f. TXT x26251
f. TXT x26252
f. TXT x26253
f. TXT x26254
f. TXT x26255
f. TXT x26256
f. TXT x26257
f. TXT x26258
f. TXT x26259
f. TXT x26260
f. TXT x26261
f. TXT x26262
f. TXT x26263
f. TXT x26264
f. TXT x26265
f. TXT x26266
f. TXT x26267
f. TXT x26268
f. TXT x26269
f. TXT x26270
f. TXT x26271
f. TXT x26272
f. TXT x26273
f. TXT x26274
f. TXT x26275
f. TXT x26276
f. TXT x26277
f. TXT x26278
f. TXT x26279
f. TXT x26280
f. TXT x26281
f. TXT x26282
f. TXT x26283
f. TXT x26284
f. TXT x26285
f. TXT x26286
f. TXT x26287
f. TXT x26288
f. TXT x26289
f. TXT x26290
f. TXT x26291
f. TXT x26292
f. TXT x26293
f. TXT x26294
f. TXT x26295
f. TXT x26296
f. TXT x26297
f. TXT x26298
f. TXT x26299
f. TXT x26300
f. TXT x26301
f. TXT x26302
f. TXT x26303
@ A a -xaz
f. TXT x26305
f. TXT x26306
f. TXT x26307
f. TXT x26308
f. TXT x26309
f. TXT x26310
f. TXT x26311
f. TXT x26312
f. TXT x26313
f. TXT x26314
f. TXT x26315
f. TXT x26316
f. TXT x26317
f. TXT x26318
f. TXT x26319
f. TXT x26320
f. TXT x26321
f. TXT x26322
f. TXT x26323
f. TXT x26324
f. TXT x26325
f. TXT x26326
f. TXT x26327
f. TXT x26328
f. TXT x26329
f. TXT x26330
f. TXT x26331
f. TXT x26332
f. TXT x26333
f. TXT x26334
f. TXT x26335
f. TXT x26336
f. TXT x26337
f. TXT x26338
f. TXT x26339
f. TXT x26340
f. TXT x26341
f. TXT x26342
f. TXT x26343
f. TXT x26344
f. TXT x26345
f. TXT x26346
f. TXT x26347
f. TXT x26348
f. TXT x26349
f. TXT x26350
f. TXT x26351
f. TXT x26352
f. TXT x26353
f. TXT x26354
f. TXT x26355
f. TXT x26356
f. TXT x26357
f. TXT x26358
f. TXT x26359
f. TXT x26360
f. TXT x26361
f. TXT x26362
f. TXT x26363
f. TXT x26364
f. TXT x26365
f. TXT x26366
f. TXT x26367
ay0c A zz-y 000
f. TXT x26369
f. TXT x26370
f. TXT x26371
f. TXT x26372
f. TXT x26373
f. TXT x26374
f. TXT x26375
f. TXT x26376
f. TXT x26377
f. TXT x26378
f. TXT x26379
f. TXT x26380
f. TXT x26381
f. TXT x26382
f. TXT x26383
f. TXT x26384
f. TXT x26385
f. TXT x26386
f. TXT x26387
f. TXT x26388
f. TXT x26389
f. TXT x26390
f. TXT x26391
f. TXT x26392
f. TXT x26393
f. TXT x26394
f. TXT x26395
f. TXT x26396
f. TXT x26397
f. TXT x26398
f. TXT x26399
f. TXT x26400
f. TXT x26401
f. TXT x26402
f. TXT x26403
f. TXT x26404
f. TXT x26405
f. TXT x26406
f. TXT x26407
f. TXT x26408
f. TXT x26409
f. TXT x26410
f. TXT x26411
f. TXT x26412
f. TXT x26413
f. TXT x26414
f. TXT x26415
f. TXT x26416
f. TXT x26417
f. TXT x26418
f. TXT x26419
f. TXT x26420
f. TXT x26421
f. TXT x26422
f. TXT x26423
f. TXT x26424
f. TXT x26425
f. TXT x26426
f. TXT x26427
f. TXT x26428
f. TXT x26429
f. TXT x26430
f. TXT x26431
; zb*
f. TXT x26433
f. TXT x26434
f. TXT x26435
f. TXT x26436
f. TXT x26437
f. TXT x26438
f. TXT x26439
f. TXT x26440
f. TXT x26441
f. TXT x26442
f. TXT x26443
f. TXT x26444
f. TXT x26445
f. TXT x26446
f. TXT x26447
f. TXT x26448
f. TXT x26449
f. TXT x26450
f. TXT x26451
f. TXT x26452
f. TXT x26453
f. TXT x26454
f. TXT x26455
f. TXT x26456
f. TXT x26457
f. TXT x26458
f. TXT x26459
f. TXT x26460
f. TXT x26461
f. TXT x26462
f. TXT x26463
f. TXT x26464
f. TXT x26465
f. TXT x26466
f. TXT x26467
f. TXT x26468
f. TXT x26469
f. TXT x26470
f. TXT x26471
f. TXT x26472
f. TXT x26473
f. TXT x26474
f. TXT x26475
f. TXT x26476
f. TXT x26477
f. TXT x26478
f. TXT x26479
f. TXT x26480
f. TXT x26481
f. TXT x26482
f. TXT x26483
f. TXT x26484
f. TXT x26485
f. TXT x26486
f. TXT x26487
f. TXT x26488
f. TXT x26489
f. TXT x26490
f. TXT x26491
f. TXT x26492
f. TXT x26493
f. TXT x26494
f. TXT x26495
cb. A a *ay- vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
f. TXT x26497
f. TXT x26498
f. TXT x26499
f. TXT x26500
f. TXT x26501
f. TXT x26502
f. TXT x26503
f. TXT x26504
f. TXT x26505
f. TXT x26506
f. TXT x26507
f. TXT x26508
f. TXT x26509
f. TXT x26510
f. TXT x26511
f. TXT x26512
f. TXT x26513
f. TXT x26514
f. TXT x26515
f. TXT x26516
f. TXT x26517
f. TXT x26518
f. TXT x26519
f. TXT x26520
f. TXT x26521
f. TXT x26522
f. TXT x26523
f. TXT x26524
f. TXT x26525
f. TXT x26526
f. TXT x26527
f. TXT x26528
f. TXT x26529
f. TXT x26530
f. TXT x26531
f. TXT x26532
f. TXT x26533
f. TXT x26534
f. TXT x26535
f. TXT x26536
f. TXT x26537
f. TXT x26538
f. TXT x26539
f. TXT x26540
f. TXT x26541
f. TXT x26542
f. TXT x26543
f. TXT x26544
f. TXT x26545
f. TXT x26546
f. TXT x26547
f. TXT x26548
f. TXT x26549
f. TXT x26550
f. TXT x26551
f. TXT x26552
f. TXT x26553
f. TXT x26554
f. TXT x26555
f. TXT x26556
f. TXT x26557
f. TXT x26558
f. TXT x26559
 TXT c- yaab
f. TXT x26561
f. TXT x26562
f. TXT x26563
f. TXT x26564
f. TXT x26565
f. TXT x26566
f. TXT x26567
f. TXT x26568
f. TXT x26569
f. TXT x26570
f. TXT x26571
f. TXT x26572
f. TXT x26573
f. TXT x26574
f. TXT x26575
f. TXT x26576
f. TXT x26577
f. TXT x26578
f. TXT x26579
f. TXT x26580
f. TXT x26581
f. TXT x26582
f. TXT x26583
f. TXT x26584
f. TXT x26585
f. TXT x26586
f. TXT x26587
f. TXT x26588
f. TXT x26589
f. TXT x26590
f. TXT x26591
f. TXT x26592
f. TXT x26593
f. TXT x26594
f. TXT x26595
f. TXT x26596
f. TXT x26597
f. TXT x26598
f. TXT x26599
f. TXT x26600
f. TXT x26601
f. TXT x26602
f. TXT x26603
f. TXT x26604
f. TXT x26605
f. TXT x26606
f. TXT x26607
f. TXT x26608
f. TXT x26609
f. TXT x26610
f. TXT x26611
f. TXT x26612
f. TXT x26613
f. TXT x26614
f. TXT x26615
f. TXT x26616
f. TXT x26617
f. TXT x26618
f. TXT x26619
f. TXT x26620
f. TXT x26621
f. TXT x26622
f. TXT x26623
yzz.*azc. TXT y * c0zy
f. TXT x26625
f. TXT x26626
f. TXT x26627
f. TXT x26628
f. TXT x26629
f. TXT x26630
f. TXT x26631
f. TXT x26632
f. TXT x26633
f. TXT x26634
f. TXT x26635
f. TXT x26636
f. TXT x26637
f. TXT x26638
f. TXT x26639
f. TXT x26640
f. TXT x26641
f. TXT x26642
f. TXT x26643
f. TXT x26644
f. TXT x26645
f. TXT x26646
f. TXT x26647
f. TXT x26648
f. TXT x26649
f. TXT x26650
f. TXT x26651
f. TXT x26652
f. TXT x26653
f. TXT x26654
f. TXT x26655
f. TXT x26656
f. TXT x26657
f. TXT x26658
f. TXT x26659
f. TXT x26660
f. TXT x26661
f. TXT x26662
f. TXT x26663
f. TXT x26664
f. TXT x26665
f. TXT x26666
f. TXT x26667
f. TXT x26668
f. TXT x26669
f. TXT x26670
f. TXT x26671
f. TXT x26672
f. TXT x26673
f. TXT x26674
f. TXT x26675
f. TXT x26676
f. TXT x26677
f. TXT x26678
f. TXT x26679
f. TXT x26680
f. TXT x26681
f. TXT x26682
f. TXT x26683
f. TXT x26684
f. TXT x26685
f. TXT x26686
f. TXT x26687

f. TXT x26689
f. TXT x26690
f. TXT x26691
f. TXT x26692
f. TXT x26693
f. TXT x26694
f. TXT x26695
f. TXT x26696
f. TXT x26697
f. TXT x26698
f. TXT x26699
f. TXT x26700
f. TXT x26701
f. TXT x26702
f. TXT x26703
f. TXT x26704
f. TXT x26705
f. TXT x26706
f. TXT x26707
f. TXT x26708
f. TXT x26709
f. TXT x26710
f. TXT x26711
f. TXT x26712
f. TXT x26713
f. TXT x26714
f. TXT x26715
f. TXT x26716
f. TXT x26717
f. TXT x26718
f. TXT x26719
f. TXT x26720
f. TXT x26721
f. TXT x26722
f. TXT x26723
f. TXT x26724
f. TXT x26725
f. TXT x26726
f. TXT x26727
f. TXT x26728
f. TXT x26729
f. TXT x26730
f. TXT x26731
f. TXT x26732
f. TXT x26733
f. TXT x26734
f. TXT x26735
f. TXT x26736
f. TXT x26737
f. TXT x26738
f. TXT x26739
f. TXT x26740
f. TXT x26741
f. TXT x26742
f. TXT x26743
f. TXT x26744
f. TXT x26745
f. TXT x26746
f. TXT x26747
f. TXT x26748
f. TXT x26749
f. TXT x26750
f. TXT x26751

f. TXT x26753
f. TXT x26754
f. TXT x26755
f. TXT x26756
f. TXT x26757
f. TXT x26758
f. TXT x26759
f. TXT x26760
f. TXT x26761
f. TXT x26762
f. TXT x26763
f. TXT x26764
f. TXT x26765
f. TXT x26766
f. TXT x26767
f. TXT x26768
f. TXT x26769
f. TXT x26770
f. TXT x26771
f. TXT x26772
f. TXT x26773
f. TXT x26774
f. TXT x26775
f. TXT x26776
f. TXT x26777
f. TXT x26778
f. TXT x26779
f. TXT x26780
f. TXT x26781
f. TXT x26782
f. TXT x26783
f. TXT x26784
f. TXT x26785
f. TXT x26786
f. TXT x26787
f. TXT x26788
f. TXT x26789
f. TXT x26790
f. TXT x26791
f. TXT x26792
f. TXT x26793
f. TXT x26794
f. TXT x26795
f. TXT x26796
f. TXT x26797
f. TXT x26798
f. TXT x26799
f. TXT x26800
f. TXT x26801
f. TXT x26802
f. TXT x26803
f. TXT x26804
f. TXT x26805
f. TXT x26806
f. TXT x26807
f. TXT x26808
f. TXT x26809
f. TXT x26810
f. TXT x26811
f. TXT x26812
f. TXT x26813
f. TXT x26814
f. TXT x26815
zyzc. TXT 0 c zz0*
f. TXT x26817
f. TXT x26818
f. TXT x26819
f. TXT x26820
f. TXT x26821
f. TXT x26822
f. TXT x26823
f. TXT x26824
f. TXT x26825
f. TXT x26826
f. TXT x26827
f. TXT x26828
f. TXT x26829
f. TXT x26830
f. TXT x26831
f. TXT x26832
f. TXT x26833
f. TXT x26834
f. TXT x26835
f. TXT x26836
f. TXT x26837
f. TXT x26838
f. TXT x26839
f. TXT x26840
f. TXT x26841
f. TXT x26842
f. TXT x26843
f. TXT x26844
f. TXT x26845
f. TXT x26846
f. TXT x26847
f. TXT x26848
f. TXT x26849
f. TXT x26850
f. TXT x26851
f. TXT x26852
f. TXT x26853
f. TXT x26854
f. TXT x26855
f. TXT x26856
f. TXT x26857
f. TXT x26858
f. TXT x26859
f. TXT x26860
f. TXT x26861
f. TXT x26862
f. TXT x26863
f. TXT x26864
f. TXT x26865
f. TXT x26866
f. TXT x26867
f. TXT x26868
f. TXT x26869
f. TXT x26870
f. TXT x26871
f. TXT x26872
f. TXT x26873
f. TXT x26874
f. TXT x26875
f. TXT x26876
f. TXT x26877
f. TXT x26878
f. TXT x26879
$TTL 320
f. TXT x26881
f. TXT x26882
f. TXT x26883
f. TXT x26884
f. TXT x26885
f. TXT x26886
f. TXT x26887
f. TXT x26888
f. TXT x26889
f. TXT x26890
f. TXT x26891
f. TXT x26892
f. TXT x26893
f. TXT x26894
f. TXT x26895
f. TXT x26896
f. TXT x26897
f. TXT x26898
f. TXT x26899
f. TXT x26900
f. TXT x26901
f. TXT x26902
f. TXT x26903
f. TXT x26904
f. TXT x26905
f. TXT x26906
f. TXT x26907
f. TXT x26908
f. TXT x26909
f. TXT x26910
f. TXT x26911
f. TXT x26912
f. TXT x26913
f. TXT x26914
f. TXT x26915
f. TXT x26916
f. TXT x26917
f. TXT x26918
f. TXT x26919
f. TXT x26920
f. TXT x26921
f. TXT x26922
f. TXT x26923
f. TXT x26924
f. TXT x26925
f. TXT x26926
f. TXT x26927
f. TXT x26928
f. TXT x26929
f. TXT x26930
f. TXT x26931
f. TXT x26932
f. TXT x26933
f. TXT x26934
f. TXT x26935
f. TXT x26936
f. TXT x26937
f. TXT x26938
f. TXT x26939
f. TXT x26940
f. TXT x26941
f. TXT x26942
f. TXT x26943
$TTL 174972244
f. TXT x26945
f. TXT x26946
f. TXT x26947
f. TXT x26948
f. TXT x26949
f. TXT x26950
f. TXT x26951
f. TXT x26952
f. TXT x26953
f. TXT x26954
f. TXT x26955
f. TXT x26956
f. TXT x26957
f. TXT x26958
f. TXT x26959
f. TXT x26960
f. TXT x26961
f. TXT x26962
f. TXT x26963
f. TXT x26964
f. TXT x26965
f. TXT x26966
f. TXT x26967
f. TXT x26968
f. TXT x26969
f. TXT x26970
f. TXT x26971
f. TXT x26972
f. TXT x26973
f. TXT x26974
f. TXT x26975
f. TXT x26976
f. TXT x26977
f. TXT x26978
f. TXT x26979
f. TXT x26980
f. TXT x26981
f. TXT x26982
f. TXT x26983
f. TXT x26984
f. TXT x26985
f. TXT x26986
f. TXT x26987
f. TXT x26988
f. TXT x26989
f. TXT x26990
f. TXT x26991
f. TXT x26992
f. TXT x26993
f. TXT x26994
f. TXT x26995
f. TXT x26996
f. TXT x26997
f. TXT x26998
f. TXT x26999
f. TXT x27000
f. TXT x27001
f. TXT x27002
f. TXT x27003
f. TXT x27004
f. TXT x27005
f. TXT x27006
f. TXT x27007
c-. TXT *-
f. TXT x27009
f. TXT x27010
f. TXT x27011
f. TXT x27012
f. TXT x27013
f. TXT x27014
f. TXT x27015
f. TXT x27016
f. TXT x27017
f. TXT x27018
f. TXT x27019
f. TXT x27020
f. TXT x27021
f. TXT x27022
f. TXT x27023
f. TXT x27024
f. TXT x27025
f. TXT x27026
f. TXT x27027
f. TXT x27028
f. TXT x27029
f. TXT x27030
f. TXT x27031
f. TXT x27032
f. TXT x27033
f. TXT x27034
f. TXT x27035
f. TXT x27036
f. TXT x27037
f. TXT x27038
f. TXT x27039
f. TXT x27040
f. TXT x27041
f. TXT x27042
f. TXT x27043
f. TXT x27044
f. TXT x27045
f. TXT x27046
f. TXT x27047
f. TXT x27048
f. TXT x27049
f. TXT x27050
f. TXT x27051
f. TXT x27052
f. TXT x27053
f. TXT x27054
f. TXT x27055
f. TXT x27056
f. TXT x27057
f. TXT x27058
f. TXT x27059
f. TXT x27060
f. TXT x27061
f. TXT x27062
f. TXT x27063
f. TXT x27064
f. TXT x27065
f. TXT x27066
f. TXT x27067
f. TXT x27068
f. TXT x27069
f. TXT x27070
f. TXT x27071
$TTL 1675361
f. TXT x27073
f. TXT x27074
f. TXT x27075
f. TXT x27076
f. TXT x27077
f. TXT x27078
f. TXT x27079
f. TXT x27080
f. TXT x27081
f. TXT x27082
f. TXT x27083
f. TXT x27084
f. TXT x27085
f. TXT x27086
f. TXT x27087
f. TXT x27088
f. TXT x27089
f. TXT x27090
f. TXT x27091
f. TXT x27092
f. TXT x27093
f. TXT x27094
f. TXT x27095
f. TXT x27096
f. TXT x27097
f. TXT x27098
f. TXT x27099
f. TXT x27100
f. TXT x27101
f. TXT x27102
f. TXT x27103
f. TXT x27104
f. TXT x27105
f. TXT x27106
f. TXT x27107
f. TXT x27108
f. TXT x27109
f. TXT x27110
f. TXT x27111
f. TXT x27112
f. TXT x27113
f. TXT x27114
f. TXT x27115
f. TXT x27116
f. TXT x27117
f. TXT x27118
f. TXT x27119
f. TXT x27120
f. TXT x27121
f. TXT x27122
f. TXT x27123
f. TXT x27124
f. TXT x27125
f. TXT x27126
f. TXT x27127
f. TXT x27128
f. TXT x27129
f. TXT x27130
f. TXT x27131
f. TXT x27132
f. TXT x27133
f. TXT x27134
f. TXT x27135
$ORIGIN b.
f. TXT x27137
f. TXT x27138
f. TXT x27139
f. TXT x27140
f. TXT x27141
f. TXT x27142
f. TXT x27143
f. TXT x27144
f. TXT x27145
f. TXT x27146
f. TXT x27147
f. TXT x27148
f. TXT x27149
f. TXT x27150
f. TXT x27151
f. TXT x27152
f. TXT x27153
f. TXT x27154
f. TXT x27155
f. TXT x27156
f. TXT x27157
f. TXT x27158
f. TXT x27159
f. TXT x27160
f. TXT x27161
f. TXT x27162
f. TXT x27163
f. TXT x27164
f. TXT x27165
f. TXT x27166
f. TXT x27167
f. TXT x27168
f. TXT x27169
f. TXT x27170
f. TXT x27171
f. TXT x27172
f. TXT x27173
f. TXT x27174
f. TXT x27175
f. TXT x27176
f. TXT x27177
f. TXT x27178
f. TXT x27179
f. TXT x27180
f. TXT x27181
f. TXT x27182
f. TXT x27183
f. TXT x27184
f. TXT x27185
f. TXT x27186
f. TXT x27187
f. TXT x27188
f. TXT x27189
f. TXT x27190
f. TXT x27191
f. TXT x27192
f. TXT x27193
f. TXT x27194
f. TXT x27195
f. TXT x27196
f. TXT x27197
f. TXT x27198
f. TXT x27199
@ TXT 0ac z-*0
f. TXT x27201
f. TXT x27202
f. TXT x27203
f. TXT x27204
f. TXT x27205
f. TXT x27206
f. TXT x27207
f. TXT x27208
f. TXT x27209
f. TXT x27210
f. TXT x27211
f. TXT x27212
f. TXT x27213
f. TXT x27214
f. TXT x27215
f. TXT x27216
f. TXT x27217
f. TXT x27218
f. TXT x27219
f. TXT x27220
f. TXT x27221
f. TXT x27222
f. TXT x27223
f. TXT x27224
f. TXT x27225
f. TXT x27226
f. TXT x27227
f. TXT x27228
f. TXT x27229
f. TXT x27230
f. TXT x27231
f. TXT x27232
f. TXT x27233
f. TXT x27234
f. TXT x27235
f. TXT x27236
f. TXT x27237
f. TXT x27238
f. TXT x27239
f. TXT x27240
f. TXT x27241
f. TXT x27242
f. TXT x27243
f. TXT x27244
f. TXT x27245
f. TXT x27246
f. TXT x27247
f. TXT x27248
f. TXT x27249
f. TXT x27250
f. TXT x27251
f. TXT x27252
f. TXT x27253
f. TXT x27254
f. TXT x27255
f. TXT x27256
f. TXT x27257
f. TXT x27258
f. TXT x27259
f. TXT x27260
f. TXT x27261
f. TXT x27262
f. TXT x27263

f. TXT x27265
f. TXT x27266
f. TXT x27267
f. TXT x27268
f. TXT x27269
f. TXT x27270
f. TXT x27271
f. TXT x27272
f. TXT x27273
f. TXT x27274
f. TXT x27275
f. TXT x27276
f. TXT x27277
f. TXT x27278
f. TXT x27279
f. TXT x27280
f. TXT x27281
f. TXT x27282
f. TXT x27283
f. TXT x27284
f. TXT x27285
f. TXT x27286
f. TXT x27287
f. TXT x27288
f. TXT x27289
f. TXT x27290
f. TXT x27291
f. TXT x27292
f. TXT x27293
f. TXT x27294
f. TXT x27295
f. TXT x27296
f. TXT x27297
f. TXT x27298
f. TXT x27299
f. TXT x27300
f. TXT x27301
f. TXT x27302
f. TXT x27303
f. TXT x27304
f. TXT x27305
f. TXT x27306
f. TXT x27307
f. TXT x27308
f. TXT x27309
f. TXT x27310
f. TXT x27311
f. TXT x27312
f. TXT x27313
f. TXT x27314
f. TXT x27315
f. TXT x27316
f. TXT x27317
f. TXT x27318
f. TXT x27319
f. TXT x27320
f. TXT x27321
f. TXT x27322
f. TXT x27323
f. TXT x27324
f. TXT x27325
f. TXT x27326
f. TXT x27327
a-bx NS zxzc
f. TXT x27329
f. TXT x27330
f. TXT x27331
f. TXT x27332
f. TXT x27333
f. TXT x27334
f. TXT x27335
f. TXT x27336
f. TXT x27337
f. TXT x27338
f. TXT x27339
f. TXT x27340
f. TXT x27341
f. TXT x27342
f. TXT x27343
f. TXT x27344
f. TXT x27345
f. TXT x27346
f. TXT x27347
f. TXT x27348
f. TXT x27349
f. TXT x27350
f. TXT x27351
f. TXT x27352
f. TXT x27353
f. TXT x27354
f. TXT x27355
f. TXT x27356
f. TXT x27357
f. TXT x27358
f. TXT x27359
f. TXT x27360
f. TXT x27361
f. TXT x27362
f. TXT x27363
f. TXT x27364
f. TXT x27365
f. TXT x27366
f. TXT x27367
f. TXT x27368
f. TXT x27369
f. TXT x27370
f. TXT x27371
f. TXT x27372
f. TXT x27373
f. TXT x27374
f. TXT x27375
f. TXT x27376
f. TXT x27377
f. TXT x27378
f. TXT x27379
f. TXT x27380
f. TXT x27381
f. TXT x27382
f. TXT x27383
f. TXT x27384
f. TXT x27385
f. TXT x27386
f. TXT x27387
f. TXT x27388
f. TXT x27389
f. TXT x27390
f. TXT x27391
@ A 0*c
f. TXT x27393
f. TXT x27394
f. TXT x27395
f. TXT x27396
f. TXT x27397
f. TXT x27398
f. TXT x27399
f. TXT x27400
f. TXT x27401
f. TXT x27402
f. TXT x27403
f. TXT x27404
f. TXT x27405
f. TXT x27406
f. TXT x27407
f. TXT x27408
f. TXT x27409
f. TXT x27410
f. TXT x27411
f. TXT x27412
f. TXT x27413
f. TXT x27414
f. TXT x27415
f. TXT x27416
f. TXT x27417
f. TXT x27418
f. TXT x27419
f. TXT x27420
f. TXT x27421
f. TXT x27422
f. TXT x27423
f. TXT x27424
f. TXT x27425
f. TXT x27426
f. TXT x27427
f. TXT x27428
f. TXT x27429
f. TXT x27430
f. TXT x27431
f. TXT x27432
f. TXT x27433
f. TXT x27434
f. TXT x27435
f. TXT x27436
f. TXT x27437
f. TXT x27438
f. TXT x27439
f. TXT x27440
f. TXT x27441
f. TXT x27442
f. TXT x27443
f. TXT x27444
f. TXT x27445
f. TXT x27446
f. TXT x27447
f. TXT x27448
f. TXT x27449
f. TXT x27450
f. TXT x27451
f. TXT x27452
f. TXT x27453
f. TXT x27454
f. TXT x27455
 NS c- aaxx
f. TXT x27457
f. TXT x27458
f. TXT x27459
f. TXT x27460
f. TXT x27461
f. TXT x27462
f. TXT x27463
f. TXT x27464
f. TXT x27465
f. TXT x27466
f. TXT x27467
f. TXT x27468
f. TXT x27469
f. TXT x27470
f. TXT x27471
f. TXT x27472
f. TXT x27473
f. TXT x27474
f. TXT x27475
f. TXT x27476
f. TXT x27477
f. TXT x27478
f. TXT x27479
f. TXT x27480
f. TXT x27481
f. TXT x27482
f. TXT x27483
f. TXT x27484
f. TXT x27485
f. TXT x27486
f. TXT x27487
f. TXT x27488
f. TXT x27489
f. TXT x27490
f. TXT x27491
f. TXT x27492
f. TXT x27493
f. TXT x27494
f. TXT x27495
f. TXT x27496
f. TXT x27497
f. TXT x27498
f. TXT x27499
f. TXT x27500
f. TXT x27501
f. TXT x27502
f. TXT x27503
f. TXT x27504
f. TXT x27505
f. TXT x27506
f. TXT x27507
f. TXT x27508
f. TXT x27509
f. TXT x27510
f. TXT x27511
f. TXT x27512
f. TXT x27513
f. TXT x27514
f. TXT x27515
f. TXT x27516
f. TXT x27517
f. TXT x27518
f. TXT x27519
$ORIGIN bc0c.xay.
f. TXT x27521
f. TXT x27522
f. TXT x27523
f. TXT x27524
f. TXT x27525
f. TXT x27526
f. TXT x27527
f. TXT x27528
f. TXT x27529
f. TXT x27530
f. TXT x27531
f. TXT x27532
f. TXT x27533
f. TXT x27534
f. TXT x27535
f. TXT x27536
f. TXT x27537
f. TXT x27538
f. TXT x27539
f. TXT x27540
f. TXT x27541
f. TXT x27542
f. TXT x27543
f. TXT x27544
f. TXT x27545
f. TXT x27546
f. TXT x27547
f. TXT x27548
f. TXT x27549
f. TXT x27550
f. TXT x27551
f. TXT x27552
f. TXT x27553
f. TXT x27554
f. TXT x27555
f. TXT x27556
f. TXT x27557
f. TXT x27558
f. TXT x27559
f. TXT x27560
f. TXT x27561
f. TXT x27562
f. TXT x27563
f. TXT x27564
f. TXT x27565
f. TXT x27566
f. TXT x27567
f. TXT x27568
f. TXT x27569
f. TXT x27570
f. TXT x27571
f. TXT x27572
f. TXT x27573
f. TXT x27574
f. TXT x27575
f. TXT x27576
f. TXT x27577
f. TXT x27578
f. TXT x27579
f. TXT x27580
f. TXT x27581
f. TXT x27582
f. TXT x27583
$ORIGIN xx0.cca.
f. TXT x27585
f. TXT x27586
f. TXT x27587
f. TXT x27588
f. TXT x27589
f. TXT x27590
f. TXT x27591
f. TXT x27592
f. TXT x27593
f. TXT x27594
f. TXT x27595
f. TXT x27596
f. TXT x27597
f. TXT x27598
f. TXT x27599
f. TXT x27600
f. TXT x27601
f. TXT x27602
f. TXT x27603
f. TXT x27604
f. TXT x27605
f. TXT x27606
f. TXT x27607
f. TXT x27608
f. TXT x27609
f. TXT x27610
f. TXT x27611
f. TXT x27612
f. TXT x27613
f. TXT x27614
f. TXT x27615
f. TXT x27616
f. TXT x27617
f. TXT x27618
f. TXT x27619
f. TXT x27620
f. TXT x27621
f. TXT x27622
f. TXT x27623
f. TXT x27624
f. TXT x27625
f. TXT x27626
f. TXT x27627
f. TXT x27628
f. TXT x27629
f. TXT x27630
f. TXT x27631
f. TXT x27632
f. TXT x27633
f. TXT x27634
f. TXT x27635
f. TXT x27636
f. TXT x27637
f. TXT x27638
f. TXT x27639
f. TXT x27640
f. TXT x27641
f. TXT x27642
f. TXT x27643
f. TXT x27644
f. TXT x27645
f. TXT x27646
f. TXT x27647
acay A -x bcaz
f. TXT x27649
f. TXT x27650
f. TXT x27651
f. TXT x27652
f. TXT x27653
f. TXT x27654
f. TXT x27655
f. TXT x27656
f. TXT x27657
f. TXT x27658
f. TXT x27659
f. TXT x27660
f. TXT x27661
f. TXT x27662
f. TXT x27663
f. TXT x27664
f. TXT x27665
f. TXT x27666
f. TXT x27667
f. TXT x27668
f. TXT x27669
f. TXT x27670
f. TXT x27671
f. TXT x27672
f. TXT x27673
f. TXT x27674
f. TXT x27675
f. TXT x27676
f. TXT x27677
f. TXT x27678
f. TXT x27679
f. TXT x27680
f. TXT x27681
f. TXT x27682
f. TXT x27683
f. TXT x27684
f. TXT x27685
f. TXT x27686
f. TXT x27687
f. TXT x27688
f. TXT x27689
f. TXT x27690
f. TXT x27691
f. TXT x27692
f. TXT x27693
f. TXT x27694
f. TXT x27695
f. TXT x27696
f. TXT x27697
f. TXT x27698
f. TXT x27699
f. TXT x27700
f. TXT x27701
f. TXT x27702
f. TXT x27703
f. TXT x27704
f. TXT x27705
f. TXT x27706
f. TXT x27707
f. TXT x27708
f. TXT x27709
f. TXT x27710
f. TXT x27711
**zy.xb0z. TXT zc0 * cy
f. TXT x27713
f. TXT x27714
f. TXT x27715
f. TXT x27716
f. TXT x27717
f. TXT x27718
f. TXT x27719
f. TXT x27720
f. TXT x27721
f. TXT x27722
f. TXT x27723
f. TXT x27724
f. TXT x27725
f. TXT x27726
f. TXT x27727
f. TXT x27728
f. TXT x27729
f. TXT x27730
f. TXT x27731
f. TXT x27732
f. TXT x27733
f. TXT x27734
f. TXT x27735
f. TXT x27736
f. TXT x27737
f. TXT x27738
f. TXT x27739
f. TXT x27740
f. TXT x27741
f. TXT x27742
f. TXT x27743
f. TXT x27744
f. TXT x27745
f. TXT x27746
f. TXT x27747
f. TXT x27748
f. TXT x27749
f. TXT x27750
f. TXT x27751
f. TXT x27752
f. TXT x27753
f. TXT x27754
f. TXT x27755
f. TXT x27756
f. TXT x27757
f. TXT x27758
f. TXT x27759
f. TXT x27760
f. TXT x27761
f. TXT x27762
f. TXT x27763
f. TXT x27764
f. TXT x27765
f. TXT x27766
f. TXT x27767
f. TXT x27768
f. TXT x27769
f. TXT x27770
f. TXT x27771
f. TXT x27772
f. TXT x27773
f. TXT x27774
f. TXT x27775
*. TXT - bz
f. TXT x27777
f. TXT x27778
f. TXT x27779
f. TXT x27780
f. TXT x27781
f. TXT x27782
f. TXT x27783
f. TXT x27784
f. TXT x27785
f. TXT x27786
f. TXT x27787
f. TXT x27788
f. TXT x27789
f. TXT x27790
f. TXT x27791
f. TXT x27792
f. TXT x27793
f. TXT x27794
f. TXT x27795
f. TXT x27796
f. TXT x27797
f. TXT x27798
f. TXT x27799
f. TXT x27800
f. TXT x27801
f. TXT x27802
f. TXT x27803
f. TXT x27804
f. TXT x27805
f. TXT x27806
f. TXT x27807
f. TXT x27808
f. TXT x27809
f. TXT x27810
f. TXT x27811
f. TXT x27812
f. TXT x27813
f. TXT x27814
f. TXT x27815
f. TXT x27816
f. TXT x27817
f. TXT x27818
f. TXT x27819
f. TXT x27820
f. TXT x27821
f. TXT x27822
f. TXT x27823
f. TXT x27824
f. TXT x27825
f. TXT x27826
f. TXT x27827
f. TXT x27828
f. TXT x27829
f. TXT x27830
f. TXT x27831
f. TXT x27832
f. TXT x27833
f. TXT x27834
f. TXT x27835
f. TXT x27836
f. TXT x27837
f. TXT x27838
f. TXT x27839

f. TXT x27841
f. TXT x27842
f. TXT x27843
f. TXT x27844
f. TXT x27845
f. TXT x27846
f. TXT x27847
f. TXT x27848
f. TXT x27849
f. TXT x27850
f. TXT x27851
f. TXT x27852
f. TXT x27853
f. TXT x27854
f. TXT x27855
f. TXT x27856
f. TXT x27857
f. TXT x27858
f. TXT x27859
f. TXT x27860
f. TXT x27861
f. TXT x27862
f. TXT x27863
f. TXT x27864
f. TXT x27865
f. TXT x27866
f. TXT x27867
f. TXT x27868
f. TXT x27869
f. TXT x27870
f. TXT x27871
f. TXT x27872
f. TXT x27873
f. TXT x27874
f. TXT x27875
f. TXT x27876
f. TXT x27877
f. TXT x27878
f. TXT x27879
f. TXT x27880
f. TXT x27881
f. TXT x27882
f. TXT x27883
f. TXT x27884
f. TXT x27885
f. TXT x27886
f. TXT x27887
f. TXT x27888
f. TXT x27889
f. TXT x27890
f. TXT x27891
f. TXT x27892
f. TXT x27893
f. TXT x27894
f. TXT x27895
f. TXT x27896
f. TXT x27897
f. TXT x27898
f. TXT x27899
f. TXT x27900
f. TXT x27901
f. TXT x27902
f. TXT x27903
zyb0 TXT -c
f. TXT x27905
f. TXT x27906
f. TXT x27907
f. TXT x27908
f. TXT x27909
f. TXT x27910
f. TXT x27911
f. TXT x27912
f. TXT x27913
f. TXT x27914
f. TXT x27915
f. TXT x27916
f. TXT x27917
f. TXT x27918
f. TXT x27919
f. TXT x27920
f. TXT x27921
f. TXT x27922
f. TXT x27923
f. TXT x27924
f. TXT x27925
f. TXT x27926
f. TXT x27927
f. TXT x27928
f. TXT x27929
f. TXT x27930
f. TXT x27931
f. TXT x27932
f. TXT x27933
f. TXT x27934
f. TXT x27935
f. TXT x27936
f. TXT x27937
f. TXT x27938
f. TXT x27939
f. TXT x27940
f. TXT x27941
f. TXT x27942
f. TXT x27943
f. TXT x27944
f. TXT x27945
f. TXT x27946
f. TXT x27947
f. TXT x27948
f. TXT x27949
f. TXT x27950
f. TXT x27951
f. TXT x27952
f. TXT x27953
f. TXT x27954
f. TXT x27955
f. TXT x27956
f. TXT x27957
f. TXT x27958
f. TXT x27959
f. TXT x27960
f. TXT x27961
f. TXT x27962
f. TXT x27963
f. TXT x27964
f. TXT x27965
f. TXT x27966
f. TXT x27967
-c*. NS xzz y0 y0az
f. TXT x27969
f. TXT x27970
f. TXT x27971
f. TXT x27972
f. TXT x27973
f. TXT x27974
f. TXT x27975
f. TXT x27976
f. TXT x27977
f. TXT x27978
f. TXT x27979
f. TXT x27980
f. TXT x27981
f. TXT x27982
f. TXT x27983
f. TXT x27984
f. TXT x27985
f. TXT x27986
f. TXT x27987
f. TXT x27988
f. TXT x27989
f. TXT x27990
f. TXT x27991
f. TXT x27992
f. TXT x27993
f. TXT x27994
f. TXT x27995
f. TXT x27996
f. TXT x27997
f. TXT x27998
f. TXT x27999
f. TXT x28000
f. TXT x28001
f. TXT x28002
f. TXT x28003
f. TXT x28004
f. TXT x28005
f. TXT x28006
f. TXT x28007
f. TXT x28008
f. TXT x28009
f. TXT x28010
f. TXT x28011
f. TXT x28012
f. TXT x28013
f. TXT x28014
f. TXT x28015
f. TXT x28016
f. TXT x28017
f. TXT x28018
f. TXT x28019
f. TXT x28020
f. TXT x28021
f. TXT x28022
f. TXT x28023
f. TXT x28024
f. TXT x28025
f. TXT x28026
f. TXT x28027
f. TXT x28028
f. TXT x28029
f. TXT x28030
f. TXT x28031
yay0.*. TXT -cb -
f. TXT x28033
f. TXT x28034
f. TXT x28035
f. TXT x28036
f. TXT x28037
f. TXT x28038
f. TXT x28039
f. TXT x28040
f. TXT x28041
f. TXT x28042
f. TXT x28043
f. TXT x28044
f. TXT x28045
f. TXT x28046
f. TXT x28047
f. TXT x28048
f. TXT x28049
f. TXT x28050
f. TXT x28051
f. TXT x28052
f. TXT x28053
f. TXT x28054
f. TXT x28055
f. TXT x28056
f. TXT x28057
f. TXT x28058
f. TXT x28059
f. TXT x28060
f. TXT x28061
f. TXT x28062
f. TXT x28063
f. TXT x28064
f. TXT x28065
f. TXT x28066
f. TXT x28067
f. TXT x28068
f. TXT x28069
f. TXT x28070
f. TXT x28071
f. TXT x28072
f. TXT x28073
f. TXT x28074
f. TXT x28075
f. TXT x28076
f. TXT x28077
f. TXT x28078
f. TXT x28079
f. TXT x28080
f. TXT x28081
f. TXT x28082
f. TXT x28083
f. TXT x28084
f. TXT x28085
f. TXT x28086
f. TXT x28087
f. TXT x28088
f. TXT x28089
f. TXT x28090
f. TXT x28091
f. TXT x28092
f. TXT x28093
f. TXT x28094
f. TXT x28095
*az.-yx. A z** ccb
f. TXT x28097
f. TXT x28098
f. TXT x28099
f. TXT x28100
f. TXT x28101
f. TXT x28102
f. TXT x28103
f. TXT x28104
f. TXT x28105
f. TXT x28106
f. TXT x28107
f. TXT x28108
f. TXT x28109
f. TXT x28110
f. TXT x28111
f. TXT x28112
f. TXT x28113
f. TXT x28114
f. TXT x28115
f. TXT x28116
f. TXT x28117
f. TXT x28118
f. TXT x28119
f. TXT x28120
f. TXT x28121
f. TXT x28122
f. TXT x28123
f. TXT x28124
f. TXT x28125
f. TXT x28126
f. TXT x28127
f. TXT x28128
f. TXT x28129
f. TXT x28130
f. TXT x28131
f. TXT x28132
f. TXT x28133
f. TXT x28134
f. TXT x28135
f. TXT x28136
f. TXT x28137
f. TXT x28138
f. TXT x28139
f. TXT x28140
f. TXT x28141
f. TXT x28142
f. TXT x28143
f. TXT x28144
f. TXT x28145
f. TXT x28146
f. TXT x28147
f. TXT x28148
f. TXT x28149
f. TXT x28150
f. TXT x28151
f. TXT x28152
f. TXT x28153
f. TXT x28154
f. TXT x28155
f. TXT x28156
f. TXT x28157
f. TXT x28158
f. TXT x28159
@ A y
f. TXT x28161
f. TXT x28162
f. TXT x28163
f. TXT x28164
f. TXT x28165
f. TXT x28166
f. TXT x28167
f. TXT x28168
f. TXT x28169
f. TXT x28170
f. TXT x28171
f. TXT x28172
f. TXT x28173
f. TXT x28174
f. TXT x28175
f. TXT x28176
f. TXT x28177
f. TXT x28178
f. TXT x28179
f. TXT x28180
f. TXT x28181
f. TXT x28182
f. TXT x28183
f. TXT x28184
f. TXT x28185
f. TXT x28186
f. TXT x28187
f. TXT x28188
f. TXT x28189
f. TXT x28190
f. TXT x28191
f. TXT x28192
f. TXT x28193
f. TXT x28194
f. TXT x28195
f. TXT x28196
f. TXT x28197
f. TXT x28198
f. TXT x28199
f. TXT x28200
f. TXT x28201
f. TXT x28202
f. TXT x28203
f. TXT x28204
f. TXT x28205
f. TXT x28206
f. TXT x28207
f. TXT x28208
f. TXT x28209
f. TXT x28210
f. TXT x28211
f. TXT x28212
f. TXT x28213
f. TXT x28214
f. TXT x28215
f. TXT x28216
f. TXT x28217
f. TXT x28218
f. TXT x28219
f. TXT x28220
f. TXT x28221
f. TXT x28222
f. TXT x28223
; cc-a
f. TXT x28225
f. TXT x28226
f. TXT x28227
f. TXT x28228
f. TXT x28229
f. TXT x28230
f. TXT x28231
f. TXT x28232
f. TXT x28233
f. TXT x28234
f. TXT x28235
f. TXT x28236
f. TXT x28237
f. TXT x28238
f. TXT x28239
f. TXT x28240
f. TXT x28241
f. TXT x28242
f. TXT x28243
f. TXT x28244
f. TXT x28245
f. TXT x28246
f. TXT x28247
f. TXT x28248
f. TXT x28249
f. TXT x28250
f. TXT x28251
f. TXT x28252
f. TXT x28253
f. TXT x28254
f. TXT x28255
f. TXT x28256
f. TXT x28257
f. TXT x28258
f. TXT x28259
f. TXT x28260
f. TXT x28261
f. TXT x28262
f. TXT x28263
f. TXT x28264
f. TXT x28265
f. TXT x28266
f. TXT x28267
f. TXT x28268
f. TXT x28269
f. TXT x28270
f. TXT x28271
f. TXT x28272
f. TXT x28273
f. TXT x28274
f. TXT x28275
f. TXT x28276
f. TXT x28277
f. TXT x28278
f. TXT x28279
f. TXT x28280
f. TXT x28281
f. TXT x28282
f. TXT x28283
f. TXT x28284
f. TXT x28285
f. TXT x28286
f. TXT x28287
 TXT cy z0
f. TXT x28289
f. TXT x28290
f. TXT x28291
f. TXT x28292
f. TXT x28293
f. TXT x28294
f. TXT x28295
f. TXT x28296
f. TXT x28297
f. TXT x28298
f. TXT x28299
f. TXT x28300
f. TXT x28301
f. TXT x28302
f. TXT x28303
f. TXT x28304
f. TXT x28305
f. TXT x28306
f. TXT x28307
f. TXT x28308
f. TXT x28309
f. TXT x28310
f. TXT x28311
f. TXT x28312
f. TXT x28313
f. TXT x28314
f. TXT x28315
f. TXT x28316
f. TXT x28317
f. TXT x28318
f. TXT x28319
f. TXT x28320
f. TXT x28321
f. TXT x28322
f. TXT x28323
f. TXT x28324
f. TXT x28325
f. TXT x28326
f. TXT x28327
f. TXT x28328
f. TXT x28329
f. TXT x28330
f. TXT x28331
f. TXT x28332
f. TXT x28333
f. TXT x28334
f. TXT x28335
f. TXT x28336
f. TXT x28337
f. TXT x28338
f. TXT x28339
f. TXT x28340
f. TXT x28341
f. TXT x28342
f. TXT x28343
f. TXT x28344
f. TXT x28345
f. TXT x28346
f. TXT x28347
f. TXT x28348
f. TXT x28349
f. TXT x28350
f. TXT x28351

f. TXT x28353
f. TXT x28354
f. TXT x28355
f. TXT x28356
f. TXT x28357
f. TXT x28358
f. TXT x28359
f. TXT x28360
f. TXT x28361
f. TXT x28362
f. TXT x28363
f. TXT x28364
f. TXT x28365
f. TXT x28366
f. TXT x28367
f. TXT x28368
f. TXT x28369
f. TXT x28370
f. TXT x28371
f. TXT x28372
f. TXT x28373
f. TXT x28374
f. TXT x28375
f. TXT x28376
f. TXT x28377
f. TXT x28378
f. TXT x28379
f. TXT x28380
f. TXT x28381
f. TXT x28382
f. TXT x28383
f. TXT x28384
f. TXT x28385
f. TXT x28386
f. TXT x28387
f. TXT x28388
f. TXT x28389
f. TXT x28390
f. TXT x28391
f. TXT x28392
f. TXT x28393
f. TXT x28394
f. TXT x28395
f. TXT x28396
f. TXT x28397
f. TXT x28398
f. TXT x28399
f. TXT x28400
f. TXT x28401
f. TXT x28402
f. TXT x28403
f. TXT x28404
f. TXT x28405
f. TXT x28406
f. TXT x28407
f. TXT x28408
f. TXT x28409
f. TXT x28410
f. TXT x28411
f. TXT x28412
f. TXT x28413
f. TXT x28414
f. TXT x28415

f. TXT x28417
f. TXT x28418
f. TXT x28419
f. TXT x28420
f. TXT x28421
f. TXT x28422
f. TXT x28423
f. TXT x28424
f. TXT x28425
f. TXT x28426
f. TXT x28427
f. TXT x28428
f. TXT x28429
f. TXT x28430
f. TXT x28431
f. TXT x28432
f. TXT x28433
f. TXT x28434
f. TXT x28435
f. TXT x28436
f. TXT x28437
f. TXT x28438
f. TXT x28439
f. TXT x28440
f. TXT x28441
f. TXT x28442
f. TXT x28443
f. TXT x28444
f. TXT x28445
f. TXT x28446
f. TXT x28447
f. TXT x28448
f. TXT x28449
f. TXT x28450
f. TXT x28451
f. TXT x28452
f. TXT x28453
f. TXT x28454
f. TXT x28455
f. TXT x28456
f. TXT x28457
f. TXT x28458
f. TXT x28459
f. TXT x28460
f. TXT x28461
f. TXT x28462
f. TXT x28463
f. TXT x28464
f. TXT x28465
f. TXT x28466
f. TXT x28467
f. TXT x28468
f. TXT x28469
f. TXT x28470
f. TXT x28471
f. TXT x28472
f. TXT x28473
f. TXT x28474
f. TXT x28475
f. TXT x28476
f. TXT x28477
f. TXT x28478
f. TXT x28479
@ A *z c*00 -c
f. TXT x28481
f. TXT x28482
f. TXT x28483
f. TXT x28484
f. TXT x28485
f. TXT x28486
f. TXT x28487
f. TXT x28488
f. TXT x28489
f. TXT x28490
f. TXT x28491
f. TXT x28492
f. TXT x28493
f. TXT x28494
f. TXT x28495
f. TXT x28496
f. TXT x28497
f. TXT x28498
f. TXT x28499
f. TXT x28500
f. TXT x28501
f. TXT x28502
f. TXT x28503
f. TXT x28504
f. TXT x28505
f. TXT x28506
f. TXT x28507
f. TXT x28508
f. TXT x28509
f. TXT x28510
f. TXT x28511
f. TXT x28512
f. TXT x28513
f. TXT x28514
f. TXT x28515
f. TXT x28516
f. TXT x28517
f. TXT x28518
f. TXT x28519
f. TXT x28520
f. TXT x28521
f. TXT x28522
f. TXT x28523
f. TXT x28524
f. TXT x28525
f. TXT x28526
f. TXT x28527
f. TXT x28528
f. TXT x28529
f. TXT x28530
f. TXT x28531
f. TXT x28532
f. TXT x28533
f. TXT x28534
f. TXT x28535
f. TXT x28536
f. TXT x28537
f. TXT x28538
f. TXT x28539
f. TXT x28540
f. TXT x28541
f. TXT x28542
f. TXT x28543
$ORIGIN zxcc.
f. TXT x28545
f. TXT x28546
f. TXT x28547
f. TXT x28548
f. TXT x28549
f. TXT x28550
f. TXT x28551
f. TXT x28552
f. TXT x28553
f. TXT x28554
f. TXT x28555
f. TXT x28556
f. TXT x28557
f. TXT x28558
f. TXT x28559
f. TXT x28560
f. TXT x28561
f. TXT x28562
f. TXT x28563
f. TXT x28564
f. TXT x28565
f. TXT x28566
f. TXT x28567
f. TXT x28568
f. TXT x28569
f. TXT x28570
f. TXT x28571
f. TXT x28572
f. TXT x28573
f. TXT x28574
f. TXT x28575
f. TXT x28576
f. TXT x28577
f. TXT x28578
f. TXT x28579
f. TXT x28580
f. TXT x28581
f. TXT x28582
f. TXT x28583
f. TXT x28584
f. TXT x28585
f. TXT x28586
f. TXT x28587
f. TXT x28588
f. TXT x28589
f. TXT x28590
f. TXT x28591
f. TXT x28592
f. TXT x28593
f. TXT x28594
f. TXT x28595
f. TXT x28596
f. TXT x28597
f. TXT x28598
f. TXT x28599
f. TXT x28600
f. TXT x28601
f. TXT x28602
f. TXT x28603
f. TXT x28604
f. TXT x28605
f. TXT x28606
f. TXT x28607
-xa*.c*-0. NS xc- ay
f. TXT x28609
f. TXT x28610
f. TXT x28611
f. TXT x28612
f. TXT x28613
f. TXT x28614
f. TXT x28615
f. TXT x28616
f. TXT x28617
f. TXT x28618
f. TXT x28619
f. TXT x28620
f. TXT x28621
f. TXT x28622
f. TXT x28623
f. TXT x28624
f. TXT x28625
f. TXT x28626
f. TXT x28627
f. TXT x28628
f. TXT x28629
f. TXT x28630
f. TXT x28631
f. TXT x28632
f. TXT x28633
f. TXT x28634
f. TXT x28635
f. TXT x28636
f. TXT x28637
f. TXT x28638
f. TXT x28639
f. TXT x28640
f. TXT x28641
f. TXT x28642
f. TXT x28643
f. TXT x28644
f. TXT x28645
f. TXT x28646
f. TXT x28647
f. TXT x28648
f. TXT x28649
f. TXT x28650
f. TXT x28651
f. TXT x28652
f. TXT x28653
f. TXT x28654
f. TXT x28655
f. TXT x28656
f. TXT x28657
f. TXT x28658
f. TXT x28659
f. TXT x28660
f. TXT x28661
f. TXT x28662
f. TXT x28663
f. TXT x28664
f. TXT x28665
f. TXT x28666
f. TXT x28667
f. TXT x28668
f. TXT x28669
f. TXT x28670
f. TXT x28671
 TXT * x-0b yy
f. TXT x28673
f. TXT x28674
f. TXT x28675
f. TXT x28676
f. TXT x28677
f. TXT x28678
f. TXT x28679
f. TXT x28680
f. TXT x28681
f. TXT x28682
f. TXT x28683
f. TXT x28684
f. TXT x28685
f. TXT x28686
f. TXT x28687
f. TXT x28688
f. TXT x28689
f. TXT x28690
f. TXT x28691
f. TXT x28692
f. TXT x28693
f. TXT x28694
f. TXT x28695
f. TXT x28696
f. TXT x28697
f. TXT x28698
f. TXT x28699
f. TXT x28700
f. TXT x28701
f. TXT x28702
f. TXT x28703
f. TXT x28704
f. TXT x28705
f. TXT x28706
f. TXT x28707
f. TXT x28708
f. TXT x28709
f. TXT x28710
f. TXT x28711
f. TXT x28712
f. TXT x28713
f. TXT x28714
f. TXT x28715
f. TXT x28716
f. TXT x28717
f. TXT x28718
f. TXT x28719
f. TXT x28720
f. TXT x28721
f. TXT x28722
f. TXT x28723
f. TXT x28724
f. TXT x28725
f. TXT x28726
f. TXT x28727
f. TXT x28728
f. TXT x28729
f. TXT x28730
f. TXT x28731
f. TXT x28732
f. TXT x28733
f. TXT x28734
f. TXT x28735
; cbz*
f. TXT x28737
f. TXT x28738
f. TXT x28739
f. TXT x28740
f. TXT x28741
f. TXT x28742
f. TXT x28743
f. TXT x28744
f. TXT x28745
f. TXT x28746
f. TXT x28747
f. TXT x28748
f. TXT x28749
f. TXT x28750
f. TXT x28751
f. TXT x28752
f. TXT x28753
f. TXT x28754
f. TXT x28755
f. TXT x28756
f. TXT x28757
f. TXT x28758
f. TXT x28759
f. TXT x28760
f. TXT x28761
f. TXT x28762
f. TXT x28763
f. TXT x28764
f. TXT x28765
f. TXT x28766
f. TXT x28767
f. TXT x28768
f. TXT x28769
f. TXT x28770
f. TXT x28771
f. TXT x28772
f. TXT x28773
f. TXT x28774
f. TXT x28775
f. TXT x28776
f. TXT x28777
f. TXT x28778
f. TXT x28779
f. TXT x28780
f. TXT x28781
f. TXT x28782
f. TXT x28783
f. TXT x28784
f. TXT x28785
f. TXT x28786
f. TXT x28787
f. TXT x28788
f. TXT x28789
f. TXT x28790
f. TXT x28791
f. TXT x28792
f. TXT x28793
f. TXT x28794
f. TXT x28795
f. TXT x28796
f. TXT x28797
f. TXT x28798
f. TXT x28799
 NS cb- cb*
f. TXT x28801
f. TXT x28802
f. TXT x28803
f. TXT x28804
f. TXT x28805
f. TXT x28806
f. TXT x28807
f. TXT x28808
f. TXT x28809
f. TXT x28810
f. TXT x28811
f. TXT x28812
f. TXT x28813
f. TXT x28814
f. TXT x28815
f. TXT x28816
f. TXT x28817
f. TXT x28818
f. TXT x28819
f. TXT x28820
f. TXT x28821
f. TXT x28822
f. TXT x28823
f. TXT x28824
f. TXT x28825
f. TXT x28826
f. TXT x28827
f. TXT x28828
f. TXT x28829
f. TXT x28830
f. TXT x28831
f. TXT x28832
f. TXT x28833
f. TXT x28834
f. TXT x28835
f. TXT x28836
f. TXT x28837
f. TXT x28838
f. TXT x28839
f. TXT x28840
f. TXT x28841
f. TXT x28842
f. TXT x28843
f. TXT x28844
f. TXT x28845
f. TXT x28846
f. TXT x28847
f. TXT x28848
f. TXT x28849
f. TXT x28850
f. TXT x28851
f. TXT x28852
f. TXT x28853
f. TXT x28854
f. TXT x28855
f. TXT x28856
f. TXT x28857
f. TXT x28858
f. TXT x28859
f. TXT x28860
f. TXT x28861
f. TXT x28862
f. TXT x28863
 TXT z0x * y
f. TXT x28865
f. TXT x28866
f. TXT x28867
f. TXT x28868
f. TXT x28869
f. TXT x28870
f. TXT x28871
f. TXT x28872
f. TXT x28873
f. TXT x28874
f. TXT x28875
f. TXT x28876
f. TXT x28877
f. TXT x28878
f. TXT x28879
f. TXT x28880
f. TXT x28881
f. TXT x28882
f. TXT x28883
f. TXT x28884
f. TXT x28885
f. TXT x28886
f. TXT x28887
f. TXT x28888
f. TXT x28889
f. TXT x28890
f. TXT x28891
f. TXT x28892
f. TXT x28893
f. TXT x28894
f. TXT x28895
f. TXT x28896
f. TXT x28897
f. TXT x28898
f. TXT x28899
f. TXT x28900
f. TXT x28901
f. TXT x28902
f. TXT x28903
f. TXT x28904
f. TXT x28905
f. TXT x28906
f. TXT x28907
f. TXT x28908
f. TXT x28909
f. TXT x28910
f. TXT x28911
f. TXT x28912
f. TXT x28913
f. TXT x28914
f. TXT x28915
f. TXT x28916
f. TXT x28917
f. TXT x28918
f. TXT x28919
f. TXT x28920
f. TXT x28921
f. TXT x28922
f. TXT x28923
f. TXT x28924
f. TXT x28925
f. TXT x28926
f. TXT x28927
z0b0 NS bcc bza
f. TXT x28929
f. TXT x28930
f. TXT x28931
f. TXT x28932
f. TXT x28933
f. TXT x28934
f. TXT x28935
f. TXT x28936
f. TXT x28937
f. TXT x28938
f. TXT x28939
f. TXT x28940
f. TXT x28941
f. TXT x28942
f. TXT x28943
f. TXT x28944
f. TXT x28945
f. TXT x28946
f. TXT x28947
f. TXT x28948
f. TXT x28949
f. TXT x28950
f. TXT x28951
f. TXT x28952
f. TXT x28953
f. TXT x28954
f. TXT x28955
f. TXT x28956
f. TXT x28957
f. TXT x28958
f. TXT x28959
f. TXT x28960
f. TXT x28961
f. TXT x28962
f. TXT x28963
f. TXT x28964
f. TXT x28965
f. TXT x28966
f. TXT x28967
f. TXT x28968
f. TXT x28969
f. TXT x28970
f. TXT x28971
f. TXT x28972
f. TXT x28973
f. TXT x28974
f. TXT x28975
f. TXT x28976
f. TXT x28977
f. TXT x28978
f. TXT x28979
f. TXT x28980
f. TXT x28981
f. TXT x28982
f. TXT x28983
f. TXT x28984
f. TXT x28985
f. TXT x28986
f. TXT x28987
f. TXT x28988
f. TXT x28989
f. TXT x28990
f. TXT x28991

f. TXT x28993
f. TXT x28994
f. TXT x28995
f. TXT x28996
f. TXT x28997
f. TXT x28998
f. TXT x28999
f. TXT x29000
f. TXT x29001
f. TXT x29002
f. TXT x29003
f. TXT x29004
f. TXT x29005
f. TXT x29006
f. TXT x29007
f. TXT x29008
f. TXT x29009
f. TXT x29010
f. TXT x29011
f. TXT x29012
f. TXT x29013
f. TXT x29014
f. TXT x29015
f. TXT x29016
f. TXT x29017
f. TXT x29018
f. TXT x29019
f. TXT x29020
f. TXT x29021
f. TXT x29022
f. TXT x29023
f. TXT x29024
f. TXT x29025
f. TXT x29026
f. TXT x29027
f. TXT x29028
f. TXT x29029
f. TXT x29030
f. TXT x29031
f. TXT x29032
f. TXT x29033
f. TXT x29034
f. TXT x29035
f. TXT x29036
f. TXT x29037
f. TXT x29038
f. TXT x29039
f. TXT x29040
f. TXT x29041
f. TXT x29042
f. TXT x29043
f. TXT x29044
f. TXT x29045
f. TXT x29046
f. TXT x29047
f. TXT x29048
f. TXT x29049
f. TXT x29050
f. TXT x29051
f. TXT x29052
f. TXT x29053
f. TXT x29054
f. TXT x29055
z NS a*0
f. TXT x29057
f. TXT x29058
f. TXT x29059
f. TXT x29060
f. TXT x29061
f. TXT x29062
f. TXT x29063
f. TXT x29064
f. TXT x29065
f. TXT x29066
f. TXT x29067
f. TXT x29068
f. TXT x29069
f. TXT x29070
f. TXT x29071
f. TXT x29072
f. TXT x29073
f. TXT x29074
f. TXT x29075
f. TXT x29076
f. TXT x29077
f. TXT x29078
f. TXT x29079
f. TXT x29080
f. TXT x29081
f. TXT x29082
f. TXT x29083
f. TXT x29084
f. TXT x29085
f. TXT x29086
f. TXT x29087
f. TXT x29088
f. TXT x29089
f. TXT x29090
f. TXT x29091
f. TXT x29092
f. TXT x29093
f. TXT x29094
f. TXT x29095
f. TXT x29096
f. TXT x29097
f. TXT x29098
f. TXT x29099
f. TXT x29100
f. TXT x29101
f. TXT x29102
f. TXT x29103
f. TXT x29104
f. TXT x29105
f. TXT x29106
f. TXT x29107
f. TXT x29108
f. TXT x29109
f. TXT x29110
f. TXT x29111
f. TXT x29112
f. TXT x29113
f. TXT x29114
f. TXT x29115
f. TXT x29116
f. TXT x29117
f. TXT x29118
f. TXT x29119
; c
f. TXT x29121
f. TXT x29122
f. TXT x29123
f. TXT x29124
f. TXT x29125
f. TXT x29126
f. TXT x29127
f. TXT x29128
f. TXT x29129
f. TXT x29130
f. TXT x29131
f. TXT x29132
f. TXT x29133
f. TXT x29134
f. TXT x29135
f. TXT x29136
f. TXT x29137
f. TXT x29138
f. TXT x29139
f. TXT x29140
f. TXT x29141
f. TXT x29142
f. TXT x29143
f. TXT x29144
f. TXT x29145
f. TXT x29146
f. TXT x29147
f. TXT x29148
f. TXT x29149
f. TXT x29150
f. TXT x29151
f. TXT x29152
f. TXT x29153
f. TXT x29154
f. TXT x29155
f. TXT x29156
f. TXT x29157
f. TXT x29158
f. TXT x29159
f. TXT x29160
f. TXT x29161
f. TXT x29162
f. TXT x29163
f. TXT x29164
f. TXT x29165
f. TXT x29166
f. TXT x29167
f. TXT x29168
f. TXT x29169
f. TXT x29170
f. TXT x29171
f. TXT x29172
f. TXT x29173
f. TXT x29174
f. TXT x29175
f. TXT x29176
f. TXT x29177
f. TXT x29178
f. TXT x29179
f. TXT x29180
f. TXT x29181
f. TXT x29182
f. TXT x29183
@ TXT - bb
f. TXT x29185
f. TXT x29186
f. TXT x29187
f. TXT x29188
f. TXT x29189
f. TXT x29190
f. TXT x29191
f. TXT x29192
f. TXT x29193
f. TXT x29194
f. TXT x29195
f. TXT x29196
f. TXT x29197
f. TXT x29198
f. TXT x29199
f. TXT x29200
f. TXT x29201
f. TXT x29202
f. TXT x29203
f. TXT x29204
f. TXT x29205
f. TXT x29206
f. TXT x29207
f. TXT x29208
f. TXT x29209
f. TXT x29210
f. TXT x29211
f. TXT x29212
f. TXT x29213
f. TXT x29214
f. TXT x29215
f. TXT x29216
f. TXT x29217
f. TXT x29218
f. TXT x29219
f. TXT x29220
f. TXT x29221
f. TXT x29222
f. TXT x29223
f. TXT x29224
f. TXT x29225
f. TXT x29226
f. TXT x29227
f. TXT x29228
f. TXT x29229
f. TXT x29230
f. TXT x29231
f. TXT x29232
f. TXT x29233
f. TXT x29234
f. TXT x29235
f. TXT x29236
f. TXT x29237
f. TXT x29238
f. TXT x29239
f. TXT x29240
f. TXT x29241
f. TXT x29242
f. TXT x29243
f. TXT x29244
f. TXT x29245
f. TXT x29246
f. TXT x29247
cx.0. A c-x 0x
f. TXT x29249
f. TXT x29250
f. TXT x29251
f. TXT x29252
f. TXT x29253
f. TXT x29254
f. TXT x29255
f. TXT x29256
f. TXT x29257
f. TXT x29258
f. TXT x29259
f. TXT x29260
f. TXT x29261
f. TXT x29262
f. TXT x29263
f. TXT x29264
f. TXT x29265
f. TXT x29266
f. TXT x29267
f. TXT x29268
f. TXT x29269
f. TXT x29270
f. TXT x29271
f. TXT x29272
f. TXT x29273
f. TXT x29274
f. TXT x29275
f. TXT x29276
f. TXT x29277
f. TXT x29278
f. TXT x29279
f. TXT x29280
f. TXT x29281
f. TXT x29282
f. TXT x29283
f. TXT x29284
f. TXT x29285
f. TXT x29286
f. TXT x29287
f. TXT x29288
f. TXT x29289
f. TXT x29290
f. TXT x29291
f. TXT x29292
f. TXT x29293
f. TXT x29294
f. TXT x29295
f. TXT x29296
f. TXT x29297
f. TXT x29298
f. TXT x29299
f. TXT x29300
f. TXT x29301
f. TXT x29302
f. TXT x29303
f. TXT x29304
f. TXT x29305
f. TXT x29306
f. TXT x29307
f. TXT x29308
f. TXT x29309
f. TXT x29310
f. TXT x29311

f. TXT x29313
f. TXT x29314
f. TXT x29315
f. TXT x29316
f. TXT x29317
f. TXT x29318
f. TXT x29319
f. TXT x29320
f. TXT x29321
f. TXT x29322
f. TXT x29323
f. TXT x29324
f. TXT x29325
f. TXT x29326
f. TXT x29327
f. TXT x29328
f. TXT x29329
f. TXT x29330
f. TXT x29331
f. TXT x29332
f. TXT x29333
f. TXT x29334
f. TXT x29335
f. TXT x29336
f. TXT x29337
f. TXT x29338
f. TXT x29339
f. TXT x29340
f. TXT x29341
f. TXT x29342
f. TXT x29343
f. TXT x29344
f. TXT x29345
f. TXT x29346
f. TXT x29347
f. TXT x29348
f. TXT x29349
f. TXT x29350
f. TXT x29351
f. TXT x29352
f. TXT x29353
f. TXT x29354
f. TXT x29355
f. TXT x29356
f. TXT x29357
f. TXT x29358
f. TXT x29359
f. TXT x29360
f. TXT x29361
f. TXT x29362
f. TXT x29363
f. TXT x29364
f. TXT x29365
f. TXT x29366
f. TXT x29367
f. TXT x29368
f. TXT x29369
f. TXT x29370
f. TXT x29371
f. TXT x29372
f. TXT x29373
f. TXT x29374
f. TXT x29375
@ NS ax *
f. TXT x29377
f. TXT x29378
f. TXT x29379
f. TXT x29380
f. TXT x29381
f. TXT x29382
f. TXT x29383
f. TXT x29384
f. TXT x29385
f. TXT x29386
f. TXT x29387
f. TXT x29388
f. TXT x29389
f. TXT x29390
f. TXT x29391
f. TXT x29392
f. TXT x29393
f. TXT x29394
f. TXT x29395
f. TXT x29396
f. TXT x29397
f. TXT x29398
f. TXT x29399
f. TXT x29400
f. TXT x29401
f. TXT x29402
f. TXT x29403
f. TXT x29404
f. TXT x29405
f. TXT x29406
f. TXT x29407
f. TXT x29408
f. TXT x29409
f. TXT x29410
f. TXT x29411
f. TXT x29412
f. TXT x29413
f. TXT x29414
f. TXT x29415
f. TXT x29416
f. TXT x29417
f. TXT x29418
f. TXT x29419
f. TXT x29420
f. TXT x29421
f. TXT x29422
f. TXT x29423
f. TXT x29424
f. TXT x29425
f. TXT x29426
f. TXT x29427
f. TXT x29428
f. TXT x29429
f. TXT x29430
f. TXT x29431
f. TXT x29432
f. TXT x29433
f. TXT x29434
f. TXT x29435
f. TXT x29436
f. TXT x29437
f. TXT x29438
f. TXT x29439
@ TXT cb 0cyy
f. TXT x29441
f. TXT x29442
f. TXT x29443
f. TXT x29444
f. TXT x29445
f. TXT x29446
f. TXT x29447
f. TXT x29448
f. TXT x29449
f. TXT x29450
f. TXT x29451
f. TXT x29452
f. TXT x29453
f. TXT x29454
f. TXT x29455
f. TXT x29456
f. TXT x29457
f. TXT x29458
f. TXT x29459
f. TXT x29460
f. TXT x29461
f. TXT x29462
f. TXT x29463
f. TXT x29464
f. TXT x29465
f. TXT x29466
f. TXT x29467
f. TXT x29468
f. TXT x29469
f. TXT x29470
f. TXT x29471
f. TXT x29472
f. TXT x29473
f. TXT x29474
f. TXT x29475
f. TXT x29476
f. TXT x29477
f. TXT x29478
f. TXT x29479
f. TXT x29480
f. TXT x29481
f. TXT x29482
f. TXT x29483
f. TXT x29484
f. TXT x29485
f. TXT x29486
f. TXT x29487
f. TXT x29488
f. TXT x29489
f. TXT x29490
f. TXT x29491
f. TXT x29492
f. TXT x29493
f. TXT x29494
f. TXT x29495
f. TXT x29496
f. TXT x29497
f. TXT x29498
f. TXT x29499
f. TXT x29500
f. TXT x29501
f. TXT x29502
f. TXT x29503
; x
f. TXT x29505
f. TXT x29506
f. TXT x29507
f. TXT x29508
f. TXT x29509
f. TXT x29510
f. TXT x29511
f. TXT x29512
f. TXT x29513
f. TXT x29514
f. TXT x29515
f. TXT x29516
f. TXT x29517
f. TXT x29518
f. TXT x29519
f. TXT x29520
f. TXT x29521
f. TXT x29522
f. TXT x29523
f. TXT x29524
f. TXT x29525
f. TXT x29526
f. TXT x29527
f. TXT x29528
f. TXT x29529
f. TXT x29530
f. TXT x29531
f. TXT x29532
f. TXT x29533
f. TXT x29534
f. TXT x29535
f. TXT x29536
f. TXT x29537
f. TXT x29538
f. TXT x29539
f. TXT x29540
f. TXT x29541
f. TXT x29542
f. TXT x29543
f. TXT x29544
f. TXT x29545
f. TXT x29546
f. TXT x29547
f. TXT x29548
f. TXT x29549
f. TXT x29550
f. TXT x29551
f. TXT x29552
f. TXT x29553
f. TXT x29554
f. TXT x29555
f. TXT x29556
f. TXT x29557
f. TXT x29558
f. TXT x29559
f. TXT x29560
f. TXT x29561
f. TXT x29562
f. TXT x29563
f. TXT x29564
f. TXT x29565
f. TXT x29566
f. TXT x29567
*--.y. A x-
f. TXT x29569
f. TXT x29570
f. TXT x29571
f. TXT x29572
f. TXT x29573
f. TXT x29574
f. TXT x29575
f. TXT x29576
f. TXT x29577
f. TXT x29578
f. TXT x29579
f. TXT x29580
f. TXT x29581
f. TXT x29582
f. TXT x29583
f. TXT x29584
f. TXT x29585
f. TXT x29586
f. TXT x29587
f. TXT x29588
f. TXT x29589
f. TXT x29590
f. TXT x29591
f. TXT x29592
f. TXT x29593
f. TXT x29594
f. TXT x29595
f. TXT x29596
f. TXT x29597
f. TXT x29598
f. TXT x29599
f. TXT x29600
f. TXT x29601
f. TXT x29602
f. TXT x29603
f. TXT x29604
f. TXT x29605
f. TXT x29606
f. TXT x29607
f. TXT x29608
f. TXT x29609
f. TXT x29610
f. TXT x29611
f. TXT x29612
f. TXT x29613
f. TXT x29614
f. TXT x29615
f. TXT x29616
f. TXT x29617
f. TXT x29618
f. TXT x29619
f. TXT x29620
f. TXT x29621
f. TXT x29622
f. TXT x29623
f. TXT x29624
f. TXT x29625
f. TXT x29626
f. TXT x29627
f. TXT x29628
f. TXT x29629
f. TXT x29630
f. TXT x29631
cy--.b*y. NS a-x-
f. TXT x29633
f. TXT x29634
f. TXT x29635
f. TXT x29636
f. TXT x29637
f. TXT x29638
f. TXT x29639
f. TXT x29640
f. TXT x29641
f. TXT x29642
f. TXT x29643
f. TXT x29644
f. TXT x29645
f. TXT x29646
f. TXT x29647
f. TXT x29648
f. TXT x29649
f. TXT x29650
f. TXT x29651
f. TXT x29652
f. TXT x29653
f. TXT x29654
f. TXT x29655
f. TXT x29656
f. TXT x29657
f. TXT x29658
f. TXT x29659
f. TXT x29660
f. TXT x29661
f. TXT x29662
f. TXT x29663
f. TXT x29664
f. TXT x29665
f. TXT x29666
f. TXT x29667
f. TXT x29668
f. TXT x29669
f. TXT x29670
f. TXT x29671
f. TXT x29672
f. TXT x29673
f. TXT x29674
f. TXT x29675
f. TXT x29676
f. TXT x29677
f. TXT x29678
f. TXT x29679
f. TXT x29680
f. TXT x29681
f. TXT x29682
f. TXT x29683
f. TXT x29684
f. TXT x29685
f. TXT x29686
f. TXT x29687
f. TXT x29688
f. TXT x29689
f. TXT x29690
f. TXT x29691
f. TXT x29692
f. TXT x29693
f. TXT x29694
f. TXT x29695
zx. NS c -*c z
f. TXT x29697
f. TXT x29698
f. TXT x29699
f. TXT x29700
f. TXT x29701
f. TXT x29702
f. TXT x29703
f. TXT x29704
f. TXT x29705
f. TXT x29706
f. TXT x29707
f. TXT x29708
f. TXT x29709
f. TXT x29710
f. TXT x29711
f. TXT x29712
f. TXT x29713
f. TXT x29714
f. TXT x29715
f. TXT x29716
f. TXT x29717
f. TXT x29718
f. TXT x29719
f. TXT x29720
f. TXT x29721
f. TXT x29722
f. TXT x29723
f. TXT x29724
f. TXT x29725
f. TXT x29726
f. TXT x29727
f. TXT x29728
f. TXT x29729
f. TXT x29730
f. TXT x29731
f. TXT x29732
f. TXT x29733
f. TXT x29734
f. TXT x29735
f. TXT x29736
f. TXT x29737
f. TXT x29738
f. TXT x29739
f. TXT x29740
f. TXT x29741
f. TXT x29742
f. TXT x29743
f. TXT x29744
f. TXT x29745
f. TXT x29746
f. TXT x29747
f. TXT x29748
f. TXT x29749
f. TXT x29750
f. TXT x29751
f. TXT x29752
f. TXT x29753
f. TXT x29754
f. TXT x29755
f. TXT x29756
f. TXT x29757
f. TXT x29758
f. TXT x29759
yc*. NS z
f. TXT x29761
f. TXT x29762
f. TXT x29763
f. TXT x29764
f. TXT x29765
f. TXT x29766
f. TXT x29767
f. TXT x29768
f. TXT x29769
f. TXT x29770
f. TXT x29771
f. TXT x29772
f. TXT x29773
f. TXT x29774
f. TXT x29775
f. TXT x29776
f. TXT x29777
f. TXT x29778
f. TXT x29779
f. TXT x29780
f. TXT x29781
f. TXT x29782
f. TXT x29783
f. TXT x29784
f. TXT x29785
f. TXT x29786
f. TXT x29787
f. TXT x29788
f. TXT x29789
f. TXT x29790
f. TXT x29791
f. TXT x29792
f. TXT x29793
f. TXT x29794
f. TXT x29795
f. TXT x29796
f. TXT x29797
f. TXT x29798
f. TXT x29799
f. TXT x29800
f. TXT x29801
f. TXT x29802
f. TXT x29803
f. TXT x29804
f. TXT x29805
f. TXT x29806
f. TXT x29807
f. TXT x29808
f. TXT x29809
f. TXT x29810
f. TXT x29811
f. TXT x29812
f. TXT x29813
f. TXT x29814
f. TXT x29815
f. TXT x29816
f. TXT x29817
f. TXT x29818
f. TXT x29819
f. TXT x29820
f. TXT x29821
f. TXT x29822
f. TXT x29823
$TTL 223
f. TXT x29825
f. TXT x29826
f. TXT x29827
f. TXT x29828
f. TXT x29829
f. TXT x29830
f. TXT x29831
f. TXT x29832
f. TXT x29833
f. TXT x29834
f. TXT x29835
f. TXT x29836
f. TXT x29837
f. TXT x29838
f. TXT x29839
f. TXT x29840
f. TXT x29841
f. TXT x29842
f. TXT x29843
f. TXT x29844
f. TXT x29845
f. TXT x29846
f. TXT x29847
f. TXT x29848
f. TXT x29849
f. TXT x29850
f. TXT x29851
f. TXT x29852
f. TXT x29853
f. TXT x29854
f. TXT x29855
f. TXT x29856
f. TXT x29857
f. TXT x29858
f. TXT x29859
f. TXT x29860
f. TXT x29861
f. TXT x29862
f. TXT x29863
f. TXT x29864
f. TXT x29865
f. TXT x29866
f. TXT x29867
f. TXT x29868
f. TXT x29869
f. TXT x29870
f. TXT x29871
f. TXT x29872
f. TXT x29873
f. TXT x29874
f. TXT x29875
f. TXT x29876
f. TXT x29877
f. TXT x29878
f. TXT x29879
f. TXT x29880
f. TXT x29881
f. TXT x29882
f. TXT x29883
f. TXT x29884
f. TXT x29885
f. TXT x29886
f. TXT x29887
; czz
f. TXT x29889
f. TXT x29890
f. TXT x29891
f. TXT x29892
f. TXT x29893
f. TXT x29894
f. TXT x29895
f. TXT x29896
f. TXT x29897
f. TXT x29898
f. TXT x29899
f. TXT x29900
f. TXT x29901
f. TXT x29902
f. TXT x29903
f. TXT x29904
f. TXT x29905
f. TXT x29906
f. TXT x29907
f. TXT x29908
f. TXT x29909
f. TXT x29910
f. TXT x29911
f. TXT x29912
f. TXT x29913
f. TXT x29914
f. TXT x29915
f. TXT x29916
f. TXT x29917
f. TXT x29918
f. TXT x29919
f. TXT x29920
f. TXT x29921
f. TXT x29922
f. TXT x29923
f. TXT x29924
f. TXT x29925
f. TXT x29926
f. TXT x29927
f. TXT x29928
f. TXT x29929
f. TXT x29930
f. TXT x29931
f. TXT x29932
f. TXT x29933
f. TXT x29934
f. TXT x29935
f. TXT x29936
f. TXT x29937
f. TXT x29938
f. TXT x29939
f. TXT x29940
f. TXT x29941
f. TXT x29942
f. TXT x29943
f. TXT x29944
f. TXT x29945
f. TXT x29946
f. TXT x29947
f. TXT x29948
f. TXT x29949
f. TXT x29950
f. TXT x29951
a0c NS cbyy acy
f. TXT x29953
f. TXT x29954
f. TXT x29955
f. TXT x29956
f. TXT x29957
f. TXT x29958
f. TXT x29959
f. TXT x29960
f. TXT x29961
f. TXT x29962
f. TXT x29963
f. TXT x29964
f. TXT x29965
f. TXT x29966
f. TXT x29967
f. TXT x29968
f. TXT x29969
f. TXT x29970
f. TXT x29971
f. TXT x29972
f. TXT x29973
f. TXT x29974
f. TXT x29975
f. TXT x29976
f. TXT x29977
f. TXT x29978
f. TXT x29979
f. TXT x29980
f. TXT x29981
f. TXT x29982
f. TXT x29983
f. TXT x29984
f. TXT x29985
f. TXT x29986
f. TXT x29987
f. TXT x29988
f. TXT x29989
f. TXT x29990
f. TXT x29991
f. TXT x29992
f. TXT x29993
f. TXT x29994
f. TXT x29995
f. TXT x29996
f. TXT x29997
f. TXT x29998
f. TXT x29999
f. TXT x30000
f. TXT x30001
f. TXT x30002
f. TXT x30003
f. TXT x30004
f. TXT x30005
f. TXT x30006
f. TXT x30007
f. TXT x30008
f. TXT x30009
f. TXT x30010
f. TXT x30011
f. TXT x30012
f. TXT x30013
f. TXT x30014
f. TXT x30015
 A z- x
f. TXT x30017
f. TXT x30018
f. TXT x30019
f. TXT x30020
f. TXT x30021
f. TXT x30022
f. TXT x30023
f. TXT x30024
f. TXT x30025
f. TXT x30026
f. TXT x30027
f. TXT x30028
f. TXT x30029
f. TXT x30030
f. TXT x30031
f. TXT x30032
f. TXT x30033
f. TXT x30034
f. TXT x30035
f. TXT x30036
f. TXT x30037
f. TXT x30038
f. TXT x30039
f. TXT x30040
f. TXT x30041
f. TXT x30042
f. TXT x30043
f. TXT x30044
f. TXT x30045
f. TXT x30046
f. TXT x30047
f. TXT x30048
f. TXT x30049
f. TXT x30050
f. TXT x30051
f. TXT x30052
f. TXT x30053
f. TXT x30054
f. TXT x30055
f. TXT x30056
f. TXT x30057
f. TXT x30058
f. TXT x30059
f. TXT x30060
f. TXT x30061
f. TXT x30062
f. TXT x30063
f. TXT x30064
f. TXT x30065
f. TXT x30066
f. TXT x30067
f. TXT x30068
f. TXT x30069
f. TXT x30070
f. TXT x30071
f. TXT x30072
f. TXT x30073
f. TXT x30074
f. TXT x30075
f. TXT x30076
f. TXT x30077
f. TXT x30078
f. TXT x30079
 A 0x0 bcz y
f. TXT x30081
f. TXT x30082
f. TXT x30083
f. TXT x30084
f. TXT x30085
f. TXT x30086
f. TXT x30087
f. TXT x30088
f. TXT x30089
f. TXT x30090
f. TXT x30091
f. TXT x30092
f. TXT x30093
f. TXT x30094
f. TXT x30095
f. TXT x30096
f. TXT x30097
f. TXT x30098
f. TXT x30099
f. TXT x30100
f. TXT x30101
f. TXT x30102
f. TXT x30103
f. TXT x30104
f. TXT x30105
f. TXT x30106
f. TXT x30107
f. TXT x30108
f. TXT x30109
f. TXT x30110
f. TXT x30111
f. TXT x30112
f. TXT x30113
f. TXT x30114
f. TXT x30115
f. TXT x30116
f. TXT x30117
f. TXT x30118
f. TXT x30119
f. TXT x30120
f. TXT x30121
f. TXT x30122
f. TXT x30123
f. TXT x30124
f. TXT x30125
f. TXT x30126
f. TXT x30127
f. TXT x30128
f. TXT x30129
f. TXT x30130
f. TXT x30131
f. TXT x30132
f. TXT x30133
f. TXT x30134
f. TXT x30135
f. TXT x30136
f. TXT x30137
f. TXT x30138
f. TXT x30139
f. TXT x30140
f. TXT x30141
f. TXT x30142
f. TXT x30143
cb.-. TXT -
f. TXT x30145
f. TXT x30146
f. TXT x30147
f. TXT x30148
f. TXT x30149
f. TXT x30150
f. TXT x30151
f. TXT x30152
f. TXT x30153
f. TXT x30154
f. TXT x30155
f. TXT x30156
f. TXT x30157
f. TXT x30158
f. TXT x30159
f. TXT x30160
f. TXT x30161
f. TXT x30162
f. TXT x30163
f. TXT x30164
f. TXT x30165
f. TXT x30166
f. TXT x30167
f. TXT x30168
f. TXT x30169
f. TXT x30170
f. TXT x30171
f. TXT x30172
f. TXT x30173
f. TXT x30174
f. TXT x30175
f. TXT x30176
f. TXT x30177
f. TXT x30178
f. TXT x30179
f. TXT x30180
f. TXT x30181
f. TXT x30182
f. TXT x30183
f. TXT x30184
f. TXT x30185
f. TXT x30186
f. TXT x30187
f. TXT x30188
f. TXT x30189
f. TXT x30190
f. TXT x30191
f. TXT x30192
f. TXT x30193
f. TXT x30194
f. TXT x30195
f. TXT x30196
f. TXT x30197
f. TXT x30198
f. TXT x30199
f. TXT x30200
f. TXT x30201
f. TXT x30202
f. TXT x30203
f. TXT x30204
f. TXT x30205
f. TXT x30206
f. TXT x30207
@ A 0cy ay-0
f. TXT x30209
f. TXT x30210
f. TXT x30211
f. TXT x30212
f. TXT x30213
f. TXT x30214
f. TXT x30215
f. TXT x30216
f. TXT x30217
f. TXT x30218
f. TXT x30219
f. TXT x30220
f. TXT x30221
f. TXT x30222
f. TXT x30223
f. TXT x30224
f. TXT x30225
f. TXT x30226
f. TXT x30227
f. TXT x30228
f. TXT x30229
f. TXT x30230
f. TXT x30231
f. TXT x30232
f. TXT x30233
f. TXT x30234
f. TXT x30235
f. TXT x30236
f. TXT x30237
f. TXT x30238
f. TXT x30239
f. TXT x30240
f. TXT x30241
f. TXT x30242
f. TXT x30243
f. TXT x30244
f. TXT x30245
f. TXT x30246
f. TXT x30247
f. TXT x30248
f. TXT x30249
f. TXT x30250
f. TXT x30251
f. TXT x30252
f. TXT x30253
f. TXT x30254
f. TXT x30255
f. TXT x30256
f. TXT x30257
f. TXT x30258
f. TXT x30259
f. TXT x30260
f. TXT x30261
f. TXT x30262
f. TXT x30263
f. TXT x30264
f. TXT x30265
f. TXT x30266
f. TXT x30267
f. TXT x30268
f. TXT x30269
f. TXT x30270
f. TXT x30271
@ A c**y
f. TXT x30273
f. TXT x30274
f. TXT x30275
f. TXT x30276
f. TXT x30277
f. TXT x30278
f. TXT x30279
f. TXT x30280
f. TXT x30281
f. TXT x30282
f. TXT x30283
f. TXT x30284
f. TXT x30285
f. TXT x30286
f. TXT x30287
f. TXT x30288
f. TXT x30289
f. TXT x30290
f. TXT x30291
f. TXT x30292
f. TXT x30293
f. TXT x30294
f. TXT x30295
f. TXT x30296
f. TXT x30297
f. TXT x30298
f. TXT x30299
f. TXT x30300
f. TXT x30301
f. TXT x30302
f. TXT x30303
f. TXT x30304
f. TXT x30305
f. TXT x30306
f. TXT x30307
f. TXT x30308
f. TXT x30309
f. TXT x30310
f. TXT x30311
f. TXT x30312
f. TXT x30313
f. TXT x30314
f. TXT x30315
f. TXT x30316
f. TXT x30317
f. TXT x30318
f. TXT x30319
f. TXT x30320
f. TXT x30321
f. TXT x30322
f. TXT x30323
f. TXT x30324
f. TXT x30325
f. TXT x30326
f. TXT x30327
f. TXT x30328
f. TXT x30329
f. TXT x30330
f. TXT x30331
f. TXT x30332
f. TXT x30333
f. TXT x30334
f. TXT x30335
 A c0 a *
f. TXT x30337
f. TXT x30338
f. TXT x30339
f. TXT x30340
f. TXT x30341
f. TXT x30342
f. TXT x30343
f. TXT x30344
f. TXT x30345
f. TXT x30346
f. TXT x30347
f. TXT x30348
f. TXT x30349
f. TXT x30350
f. TXT x30351
f. TXT x30352
f. TXT x30353
f. TXT x30354
f. TXT x30355
f. TXT x30356
f. TXT x30357
f. TXT x30358
f. TXT x30359
f. TXT x30360
f. TXT x30361
f. TXT x30362
f. TXT x30363
f. TXT x30364
f. TXT x30365
f. TXT x30366
f. TXT x30367
f. TXT x30368
f. TXT x30369
f. TXT x30370
f. TXT x30371
f. TXT x30372
f. TXT x30373
f. TXT x30374
f. TXT x30375
f. TXT x30376
f. TXT x30377
f. TXT x30378
f. TXT x30379
f. TXT x30380
f. TXT x30381
f. TXT x30382
f. TXT x30383
f. TXT x30384
f. TXT x30385
f. TXT x30386
f. TXT x30387
f. TXT x30388
f. TXT x30389
f. TXT x30390
f. TXT x30391
f. TXT x30392
f. TXT x30393
f. TXT x30394
f. TXT x30395
f. TXT x30396
f. TXT x30397
f. TXT x30398
f. TXT x30399
0*cc TXT c *-*y z
f. TXT x30401
f. TXT x30402
f. TXT x30403
f. TXT x30404
f. TXT x30405
f. TXT x30406
f. TXT x30407
f. TXT x30408
f. TXT x30409
f. TXT x30410
f. TXT x30411
f. TXT x30412
f. TXT x30413
f. TXT x30414
f. TXT x30415
f. TXT x30416
f. TXT x30417
f. TXT x30418
f. TXT x30419
f. TXT x30420
f. TXT x30421
f. TXT x30422
f. TXT x30423
f. TXT x30424
f. TXT x30425
f. TXT x30426
f. TXT x30427
f. TXT x30428
f. TXT x30429
f. TXT x30430
f. TXT x30431
f. TXT x30432
f. TXT x30433
f. TXT x30434
f. TXT x30435
f. TXT x30436
f. TXT x30437
f. TXT x30438
f. TXT x30439
f. TXT x30440
f. TXT x30441
f. TXT x30442
f. TXT x30443
f. TXT x30444
f. TXT x30445
f. TXT x30446
f. TXT x30447
f. TXT x30448
f. TXT x30449
f. TXT x30450
f. TXT x30451
f. TXT x30452
f. TXT x30453
f. TXT x30454
f. TXT x30455
f. TXT x30456
f. TXT x30457
f. TXT x30458
f. TXT x30459
f. TXT x30460
f. TXT x30461
f. TXT x30462
f. TXT x30463
*yy A *-
f. TXT x30465
f. TXT x30466
f. TXT x30467
f. TXT x30468
f. TXT x30469
f. TXT x30470
f. TXT x30471
f. TXT x30472
f. TXT x30473
f. TXT x30474
f. TXT x30475
f. TXT x30476
f. TXT x30477
f. TXT x30478
f. TXT x30479
f. TXT x30480
f. TXT x30481
f. TXT x30482
f. TXT x30483
f. TXT x30484
f. TXT x30485
f. TXT x30486
f. TXT x30487
f. TXT x30488
f. TXT x30489
f. TXT x30490
f. TXT x30491
f. TXT x30492
f. TXT x30493
f. TXT x30494
f. TXT x30495
f. TXT x30496
f. TXT x30497
f. TXT x30498
f. TXT x30499
f. TXT x30500
f. TXT x30501
f. TXT x30502
f. TXT x30503
f. TXT x30504
f. TXT x30505
f. TXT x30506
f. TXT x30507
f. TXT x30508
f. TXT x30509
f. TXT x30510
f. TXT x30511
f. TXT x30512
f. TXT x30513
f. TXT x30514
f. TXT x30515
f. TXT x30516
f. TXT x30517
f. TXT x30518
f. TXT x30519
f. TXT x30520
f. TXT x30521
f. TXT x30522
f. TXT x30523
f. TXT x30524
f. TXT x30525
f. TXT x30526
f. TXT x30527
x*b. A yz ya
f. TXT x30529
f. TXT x30530
f. TXT x30531
f. TXT x30532
f. TXT x30533
f. TXT x30534
f. TXT x30535
f. TXT x30536
f. TXT x30537
f. TXT x30538
f. TXT x30539
f. TXT x30540
f. TXT x30541
f. TXT x30542
f. TXT x30543
f. TXT x30544
f. TXT x30545
f. TXT x30546
f. TXT x30547
f. TXT x30548
f. TXT x30549
f. TXT x30550
f. TXT x30551
f. TXT x30552
f. TXT x30553
f. TXT x30554
f. TXT x30555
f. TXT x30556
f. TXT x30557
f. TXT x30558
f. TXT x30559
f. TXT x30560
f. TXT x30561
f. TXT x30562
f. TXT x30563
f. TXT x30564
f. TXT x30565
f. TXT x30566
f. TXT x30567
f. TXT x30568
f. TXT x30569
f. TXT x30570
f. TXT x30571
f. TXT x30572
f. TXT x30573
f. TXT x30574
f. TXT x30575
f. TXT x30576
f. TXT x30577
f. TXT x30578
f. TXT x30579
f. TXT x30580
f. TXT x30581
f. TXT x30582
f. TXT x30583
f. TXT x30584
f. TXT x30585
f. TXT x30586
f. TXT x30587
f. TXT x30588
f. TXT x30589
f. TXT x30590
f. TXT x30591

f. TXT x30593
f. TXT x30594
f. TXT x30595
f. TXT x30596
f. TXT x30597
f. TXT x30598
f. TXT x30599
f. TXT x30600
f. TXT x30601
f. TXT x30602
f. TXT x30603
f. TXT x30604
f. TXT x30605
f. TXT x30606
f. TXT x30607
f. TXT x30608
f. TXT x30609
f. TXT x30610
f. TXT x30611
f. TXT x30612
f. TXT x30613
f. TXT x30614
f. TXT x30615
f. TXT x30616
f. TXT x30617
f. TXT x30618
f. TXT x30619
f. TXT x30620
f. TXT x30621
f. TXT x30622
f. TXT x30623
f. TXT x30624
f. TXT x30625
f. TXT x30626
f. TXT x30627
f. TXT x30628
f. TXT x30629
f. TXT x30630
f. TXT x30631
f. TXT x30632
f. TXT x30633
f. TXT x30634
f. TXT x30635
f. TXT x30636
f. TXT x30637
f. TXT x30638
f. TXT x30639
f. TXT x30640
f. TXT x30641
f. TXT x30642
f. TXT x30643
f. TXT x30644
f. TXT x30645
f. TXT x30646
f. TXT x30647
f. TXT x30648
f. TXT x30649
f. TXT x30650
f. TXT x30651
f. TXT x30652
f. TXT x30653
f. TXT x30654
f. TXT x30655
-x*a TXT b* 0ay
f. TXT x30657
f. TXT x30658
f. TXT x30659
f. TXT x30660
f. TXT x30661
f. TXT x30662
f. TXT x30663
f. TXT x30664
f. TXT x30665
f. TXT x30666
f. TXT x30667
f. TXT x30668
f. TXT x30669
f. TXT x30670
f. TXT x30671
f. TXT x30672
f. TXT x30673
f. TXT x30674
f. TXT x30675
f. TXT x30676
f. TXT x30677
f. TXT x30678
f. TXT x30679
f. TXT x30680
f. TXT x30681
f. TXT x30682
f. TXT x30683
f. TXT x30684
f. TXT x30685
f. TXT x30686
f. TXT x30687
f. TXT x30688
f. TXT x30689
f. TXT x30690
f. TXT x30691
f. TXT x30692
f. TXT x30693
f. TXT x30694
f. TXT x30695
f. TXT x30696
f. TXT x30697
f. TXT x30698
f. TXT x30699
f. TXT x30700
f. TXT x30701
f. TXT x30702
f. TXT x30703
f. TXT x30704
f. TXT x30705
f. TXT x30706
f. TXT x30707
f. TXT x30708
f. TXT x30709
f. TXT x30710
f. TXT x30711
f. TXT x30712
f. TXT x30713
f. TXT x30714
f. TXT x30715
f. TXT x30716
f. TXT x30717
f. TXT x30718
f. TXT x30719
@ A 0y
f. TXT x30721
f. TXT x30722
f. TXT x30723
f. TXT x30724
f. TXT x30725
f. TXT x30726
f. TXT x30727
f. TXT x30728
f. TXT x30729
f. TXT x30730
f. TXT x30731
f. TXT x30732
f. TXT x30733
f. TXT x30734
f. TXT x30735
f. TXT x30736
f. TXT x30737
f. TXT x30738
f. TXT x30739
f. TXT x30740
f. TXT x30741
f. TXT x30742
f. TXT x30743
f. TXT x30744
f. TXT x30745
f. TXT x30746
f. TXT x30747
f. TXT x30748
f. TXT x30749
f. TXT x30750
f. TXT x30751
f. TXT x30752
f. TXT x30753
f. TXT x30754
f. TXT x30755
f. TXT x30756
f. TXT x30757
f. TXT x30758
f. TXT x30759
f. TXT x30760
f. TXT x30761
f. TXT x30762
f. TXT x30763
f. TXT x30764
f. TXT x30765
f. TXT x30766
f. TXT x30767
f. TXT x30768
f. TXT x30769
f. TXT x30770
f. TXT x30771
f. TXT x30772
f. TXT x30773
f. TXT x30774
f. TXT x30775
f. TXT x30776
f. TXT x30777
f. TXT x30778
f. TXT x30779
f. TXT x30780
f. TXT x30781
f. TXT x30782
f. TXT x30783
z TXT cb cz
f. TXT x30785
f. TXT x30786
f. TXT x30787
f. TXT x30788
f. TXT x30789
f. TXT x30790
f. TXT x30791
f. TXT x30792
f. TXT x30793
f. TXT x30794
f. TXT x30795
f. TXT x30796
f. TXT x30797
f. TXT x30798
f. TXT x30799
f. TXT x30800
f. TXT x30801
f. TXT x30802
f. TXT x30803
f. TXT x30804
f. TXT x30805
f. TXT x30806
f. TXT x30807
f. TXT x30808
f. TXT x30809
f. TXT x30810
f. TXT x30811
f. TXT x30812
f. TXT x30813
f. TXT x30814
f. TXT x30815
f. TXT x30816
f. TXT x30817
f. TXT x30818
f. TXT x30819
f. TXT x30820
f. TXT x30821
f. TXT x30822
f. TXT x30823
f. TXT x30824
f. TXT x30825
f. TXT x30826
f. TXT x30827
f. TXT x30828
f. TXT x30829
f. TXT x30830
f. TXT x30831
f. TXT x30832
f. TXT x30833
f. TXT x30834
f. TXT x30835
f. TXT x30836
f. TXT x30837
f. TXT x30838
f. TXT x30839
f. TXT x30840
f. TXT x30841
f. TXT x30842
f. TXT x30843
f. TXT x30844
f. TXT x30845
f. TXT x30846
f. TXT x30847

f. TXT x30849
f. TXT x30850
f. TXT x30851
f. TXT x30852
f. TXT x30853
f. TXT x30854
f. TXT x30855
f. TXT x30856
f. TXT x30857
f. TXT x30858
f. TXT x30859
f. TXT x30860
f. TXT x30861
f. TXT x30862
f. TXT x30863
f. TXT x30864
f. TXT x30865
f. TXT x30866
f. TXT x30867
f. TXT x30868
f. TXT x30869
f. TXT x30870
f. TXT x30871
f. TXT x30872
f. TXT x30873
f. TXT x30874
f. TXT x30875
f. TXT x30876
f. TXT x30877
f. TXT x30878
f. TXT x30879
f. TXT x30880
f. TXT x30881
f. TXT x30882
f. TXT x30883
f. TXT x30884
f. TXT x30885
f. TXT x30886
f. TXT x30887
f. TXT x30888
f. TXT x30889
f. TXT x30890
f. TXT x30891
f. TXT x30892
f. TXT x30893
f. TXT x30894
f. TXT x30895
f. TXT x30896
f. TXT x30897
f. TXT x30898
f. TXT x30899
f. TXT x30900
f. TXT x30901
f. TXT x30902
f. TXT x30903
f. TXT x30904
f. TXT x30905
f. TXT x30906
f. TXT x30907
f. TXT x30908
f. TXT x30909
f. TXT x30910
f. TXT x30911
za TXT *a*z ax 0azy
f. TXT x30913
f. TXT x30914
f. TXT x30915
f. TXT x30916
f. TXT x30917
f. TXT x30918
f. TXT x30919
f. TXT x30920
f. TXT x30921
f. TXT x30922
f. TXT x30923
f. TXT x30924
f. TXT x30925
f. TXT x30926
f. TXT x30927
f. TXT x30928
f. TXT x30929
f. TXT x30930
f. TXT x30931
f. TXT x30932
f. TXT x30933
f. TXT x30934
f. TXT x30935
f. TXT x30936
f. TXT x30937
f. TXT x30938
f. TXT x30939
f. TXT x30940
f. TXT x30941
f. TXT x30942
f. TXT x30943
f. TXT x30944
f. TXT x30945
f. TXT x30946
f. TXT x30947
f. TXT x30948
f. TXT x30949
f. TXT x30950
f. TXT x30951
f. TXT x30952
f. TXT x30953
f. TXT x30954
f. TXT x30955
f. TXT x30956
f. TXT x30957
f. TXT x30958
f. TXT x30959
f. TXT x30960
f. TXT x30961
f. TXT x30962
f. TXT x30963
f. TXT x30964
f. TXT x30965
f. TXT x30966
f. TXT x30967
f. TXT x30968
f. TXT x30969
f. TXT x30970
f. TXT x30971
f. TXT x30972
f. TXT x30973
f. TXT x30974
f. TXT x30975
zxyc. A yzc
f. TXT x30977
f. TXT x30978
f. TXT x30979
f. TXT x30980
f. TXT x30981
f. TXT x30982
f. TXT x30983
f. TXT x30984
f. TXT x30985
f. TXT x30986
f. TXT x30987
f. TXT x30988
f. TXT x30989
f. TXT x30990
f. TXT x30991
f. TXT x30992
f. TXT x30993
f. TXT x30994
f. TXT x30995
f. TXT x30996
f. TXT x30997
f. TXT x30998
f. TXT x30999
f. TXT x31000
f. TXT x31001
f. TXT x31002
f. TXT x31003
f. TXT x31004
f. TXT x31005
f. TXT x31006
f. TXT x31007
f. TXT x31008
f. TXT x31009
f. TXT x31010
f. TXT x31011
f. TXT x31012
f. TXT x31013
f. TXT x31014
f. TXT x31015
f. TXT x31016
f. TXT x31017
f. TXT x31018
f. TXT x31019
f. TXT x31020
f. TXT x31021
f. TXT x31022
f. TXT x31023
f. TXT x31024
f. TXT x31025
f. TXT x31026
f. TXT x31027
f. TXT x31028
f. TXT x31029
f. TXT x31030
f. TXT x31031
f. TXT x31032
f. TXT x31033
f. TXT x31034
f. TXT x31035
f. TXT x31036
f. TXT x31037
f. TXT x31038
f. TXT x31039
bxz- TXT ya-z
f. TXT x31041
f. TXT x31042
f. TXT x31043
f. TXT x31044
f. TXT x31045
f. TXT x31046
f. TXT x31047
f. TXT x31048
f. TXT x31049
f. TXT x31050
f. TXT x31051
f. TXT x31052
f. TXT x31053
f. TXT x31054
f. TXT x31055
f. TXT x31056
f. TXT x31057
f. TXT x31058
f. TXT x31059
f. TXT x31060
f. TXT x31061
f. TXT x31062
f. TXT x31063
f. TXT x31064
f. TXT x31065
f. TXT x31066
f. TXT x31067
f. TXT x31068
f. TXT x31069
f. TXT x31070
f. TXT x31071
f. TXT x31072
f. TXT x31073
f. TXT x31074
f. TXT x31075
f. TXT x31076
f. TXT x31077
f. TXT x31078
f. TXT x31079
f. TXT x31080
f. TXT x31081
f. TXT x31082
f. TXT x31083
f. TXT x31084
f. TXT x31085
f. TXT x31086
f. TXT x31087
f. TXT x31088
f. TXT x31089
f. TXT x31090
f. TXT x31091
f. TXT x31092
f. TXT x31093
f. TXT x31094
f. TXT x31095
f. TXT x31096
f. TXT x31097
f. TXT x31098
f. TXT x31099
f. TXT x31100
f. TXT x31101
f. TXT x31102
f. TXT x31103
 A y c0z
f. TXT x31105
f. TXT x31106
f. TXT x31107
f. TXT x31108
f. TXT x31109
f. TXT x31110
f. TXT x31111
f. TXT x31112
f. TXT x31113
f. TXT x31114
f. TXT x31115
f. TXT x31116
f. TXT x31117
f. TXT x31118
f. TXT x31119
f. TXT x31120
f. TXT x31121
f. TXT x31122
f. TXT x31123
f. TXT x31124
f. TXT x31125
f. TXT x31126
f. TXT x31127
f. TXT x31128
f. TXT x31129
f. TXT x31130
f. TXT x31131
f. TXT x31132
f. TXT x31133
f. TXT x31134
f. TXT x31135
f. TXT x31136
f. TXT x31137
f. TXT x31138
f. TXT x31139
f. TXT x31140
f. TXT x31141
f. TXT x31142
f. TXT x31143
f. TXT x31144
f. TXT x31145
f. TXT x31146
f. TXT x31147
f. TXT x31148
f. TXT x31149
f. TXT x31150
f. TXT x31151
f. TXT x31152
f. TXT x31153
f. TXT x31154
f. TXT x31155
f. TXT x31156
f. TXT x31157
f. TXT x31158
f. TXT x31159
f. TXT x31160
f. TXT x31161
f. TXT x31162
f. TXT x31163
f. TXT x31164
f. TXT x31165
f. TXT x31166
f. TXT x31167
$TTL 4294967295
f. TXT x31169
f. TXT x31170
f. TXT x31171
f. TXT x31172
f. TXT x31173
f. TXT x31174
f. TXT x31175
f. TXT x31176
f. TXT x31177
f. TXT x31178
f. TXT x31179
f. TXT x31180
f. TXT x31181
f. TXT x31182
f. TXT x31183
f. TXT x31184
f. TXT x31185
f. TXT x31186
f. TXT x31187
f. TXT x31188
f. TXT x31189
f. TXT x31190
f. TXT x31191
f. TXT x31192
f. TXT x31193
f. TXT x31194
f. TXT x31195
f. TXT x31196
f. TXT x31197
f. TXT x31198
f. TXT x31199
f. TXT x31200
f. TXT x31201
f. TXT x31202
f. TXT x31203
f. TXT x31204
f. TXT x31205
f. TXT x31206
f. TXT x31207
f. TXT x31208
f. TXT x31209
f. TXT x31210
f. TXT x31211
f. TXT x31212
f. TXT x31213
f. TXT x31214
f. TXT x31215
f. TXT x31216
f. TXT x31217
f. TXT x31218
f. TXT x31219
f. TXT x31220
f. TXT x31221
f. TXT x31222
f. TXT x31223
f. TXT x31224
f. TXT x31225
f. TXT x31226
f. TXT x31227
f. TXT x31228
f. TXT x31229
f. TXT x31230
f. TXT x31231

f. TXT x31233
f. TXT x31234
f. TXT x31235
f. TXT x31236
f. TXT x31237
f. TXT x31238
f. TXT x31239
f. TXT x31240
f. TXT x31241
f. TXT x31242
f. TXT x31243
f. TXT x31244
f. TXT x31245
f. TXT x31246
f. TXT x31247
f. TXT x31248
f. TXT x31249
f. TXT x31250
f. TXT x31251
f. TXT x31252
f. TXT x31253
f. TXT x31254
f. TXT x31255
f. TXT x31256
f. TXT x31257
f. TXT x31258
f. TXT x31259
f. TXT x31260
f. TXT x31261
f. TXT x31262
f. TXT x31263
f. TXT x31264
f. TXT x31265
f. TXT x31266
f. TXT x31267
f. TXT x31268
f. TXT x31269
f. TXT x31270
f. TXT x31271
f. TXT x31272
f. TXT x31273
f. TXT x31274
f. TXT x31275
f. TXT x31276
f. TXT x31277
f. TXT x31278
f. TXT x31279
f. TXT x31280
f. TXT x31281
f. TXT x31282
f. TXT x31283
f. TXT x31284
f. TXT x31285
f. TXT x31286
f. TXT x31287
f. TXT x31288
f. TXT x31289
f. TXT x31290
f. TXT x31291
f. TXT x31292
f. TXT x31293
f. TXT x31294
f. TXT x31295
; x
f. TXT x31297
f. TXT x31298
f. TXT x31299
f. TXT x31300
f. TXT x31301
f. TXT x31302
f. TXT x31303
f. TXT x31304
f. TXT x31305
f. TXT x31306
f. TXT x31307
f. TXT x31308
f. TXT x31309
f. TXT x31310
f. TXT x31311
f. TXT x31312
f. TXT x31313
f. TXT x31314
f. TXT x31315
f. TXT x31316
f. TXT x31317
f. TXT x31318
f. TXT x31319
f. TXT x31320
f. TXT x31321
f. TXT x31322
f. TXT x31323
f. TXT x31324
f. TXT x31325
f. TXT x31326
f. TXT x31327
f. TXT x31328
f. TXT x31329
f. TXT x31330
f. TXT x31331
f. TXT x31332
f. TXT x31333
f. TXT x31334
f. TXT x31335
f. TXT x31336
f. TXT x31337
f. TXT x31338
f. TXT x31339
f. TXT x31340
f. TXT x31341
f. TXT x31342
f. TXT x31343
f. TXT x31344
f. TXT x31345
f. TXT x31346
f. TXT x31347
f. TXT x31348
f. TXT x31349
f. TXT x31350
f. TXT x31351
f. TXT x31352
f. TXT x31353
f. TXT x31354
f. TXT x31355
f. TXT x31356
f. TXT x31357
f. TXT x31358
f. TXT x31359

f. TXT x31361
f. TXT x31362
f. TXT x31363
f. TXT x31364
f. TXT x31365
f. TXT x31366
f. TXT x31367
f. TXT x31368
f. TXT x31369
f. TXT x31370
f. TXT x31371
f. TXT x31372
f. TXT x31373
f. TXT x31374
f. TXT x31375
f. TXT x31376
f. TXT x31377
f. TXT x31378
f. TXT x31379
f. TXT x31380
f. TXT x31381
f. TXT x31382
f. TXT x31383
f. TXT x31384
f. TXT x31385
f. TXT x31386
f. TXT x31387
f. TXT x31388
f. TXT x31389
f. TXT x31390
f. TXT x31391
f. TXT x31392
f. TXT x31393
f. TXT x31394
f. TXT x31395
f. TXT x31396
f. TXT x31397
f. TXT x31398
f. TXT x31399
f. TXT x31400
f. TXT x31401
f. TXT x31402
f. TXT x31403
f. TXT x31404
f. TXT x31405
f. TXT x31406
f. TXT x31407
f. TXT x31408
f. TXT x31409
f. TXT x31410
f. TXT x31411
f. TXT x31412
f. TXT x31413
f. TXT x31414
f. TXT x31415
f. TXT x31416
f. TXT x31417
f. TXT x31418
f. TXT x31419
f. TXT x31420
f. TXT x31421
f. TXT x31422
f. TXT x31423
y*z NS c za0
f. TXT x31425
f. TXT x31426
f. TXT x31427
f. TXT x31428
f. TXT x31429
f. TXT x31430
f. TXT x31431
f. TXT x31432
f. TXT x31433
f. TXT x31434
f. TXT x31435
f. TXT x31436
f. TXT x31437
f. TXT x31438
f. TXT x31439
f. TXT x31440
f. TXT x31441
f. TXT x31442
f. TXT x31443
f. TXT x31444
f. TXT x31445
f. TXT x31446
f. TXT x31447
f. TXT x31448
f. TXT x31449
f. TXT x31450
f. TXT x31451
f. TXT x31452
f. TXT x31453
f. TXT x31454
f. TXT x31455
f. TXT x31456
f. TXT x31457
f. TXT x31458
f. TXT x31459
f. TXT x31460
f. TXT x31461
f. TXT x31462
f. TXT x31463
f. TXT x31464
f. TXT x31465
f. TXT x31466
f. TXT x31467
f. TXT x31468
f. TXT x31469
f. TXT x31470
f. TXT x31471
f. TXT x31472
f. TXT x31473
f. TXT x31474
f. TXT x31475
f. TXT x31476
f. TXT x31477
f. TXT x31478
f. TXT x31479
f. TXT x31480
f. TXT x31481
f. TXT x31482
f. TXT x31483
f. TXT x31484
f. TXT x31485
f. TXT x31486
f. TXT x31487
; z-
f. TXT x31489
f. TXT x31490
f. TXT x31491
f. TXT x31492
f. TXT x31493
f. TXT x31494
f. TXT x31495
f. TXT x31496
f. TXT x31497
f. TXT x31498
f. TXT x31499
f. TXT x31500
f. TXT x31501
f. TXT x31502
f. TXT x31503
f. TXT x31504
f. TXT x31505
f. TXT x31506
f. TXT x31507
f. TXT x31508
f. TXT x31509
f. TXT x31510
f. TXT x31511
f. TXT x31512
f. TXT x31513
f. TXT x31514
f. TXT x31515
f. TXT x31516
f. TXT x31517
f. TXT x31518
f. TXT x31519
f. TXT x31520
f. TXT x31521
f. TXT x31522
f. TXT x31523
f. TXT x31524
f. TXT x31525
f. TXT x31526
f. TXT x31527
f. TXT x31528
f. TXT x31529
f. TXT x31530
f. TXT x31531
f. TXT x31532
f. TXT x31533
f. TXT x31534
f. TXT x31535
f. TXT x31536
f. TXT x31537
f. TXT x31538
f. TXT x31539
f. TXT x31540
f. TXT x31541
f. TXT x31542
f. TXT x31543
f. TXT x31544
f. TXT x31545
f. TXT x31546
f. TXT x31547
f. TXT x31548
f. TXT x31549
f. TXT x31550
f. TXT x31551

f. TXT x31553
f. TXT x31554
f. TXT x31555
f. TXT x31556
f. TXT x31557
f. TXT x31558
f. TXT x31559
f. TXT x31560
f. TXT x31561
f. TXT x31562
f. TXT x31563
f. TXT x31564
f. TXT x31565
f. TXT x31566
f. TXT x31567
f. TXT x31568
f. TXT x31569
f. TXT x31570
f. TXT x31571
f. TXT x31572
f. TXT x31573
f. TXT x31574
f. TXT x31575
f. TXT x31576
f. TXT x31577
f. TXT x31578
f. TXT x31579
f. TXT x31580
f. TXT x31581
f. TXT x31582
f. TXT x31583
f. TXT x31584
f. TXT x31585
f. TXT x31586
f. TXT x31587
f. TXT x31588
f. TXT x31589
f. TXT x31590
f. TXT x31591
f. TXT x31592
f. TXT x31593
f. TXT x31594
f. TXT x31595
f. TXT x31596
f. TXT x31597
f. TXT x31598
f. TXT x31599
f. TXT x31600
f. TXT x31601
f. TXT x31602
f. TXT x31603
f. TXT x31604
f. TXT x31605
f. TXT x31606
f. TXT x31607
f. TXT x31608
f. TXT x31609
f. TXT x31610
f. TXT x31611
f. TXT x31612
f. TXT x31613
f. TXT x31614
f. TXT x31615
*az- TXT y xx
f. TXT x31617
f. TXT x31618
f. TXT x31619
f. TXT x31620
f. TXT x31621
f. TXT x31622
f. TXT x31623
f. TXT x31624
f. TXT x31625
f. TXT x31626
f. TXT x31627
f. TXT x31628
f. TXT x31629
f. TXT x31630
f. TXT x31631
f. TXT x31632
f. TXT x31633
f. TXT x31634
f. TXT x31635
f. TXT x31636
f. TXT x31637
f. TXT x31638
f. TXT x31639
f. TXT x31640
f. TXT x31641
f. TXT x31642
f. TXT x31643
f. TXT x31644
f. TXT x31645
f. TXT x31646
f. TXT x31647
f. TXT x31648
f. TXT x31649
f. TXT x31650
f. TXT x31651
f. TXT x31652
f. TXT x31653
f. TXT x31654
f. TXT x31655
f. TXT x31656
f. TXT x31657
f. TXT x31658
f. TXT x31659
f. TXT x31660
f. TXT x31661
f. TXT x31662
f. TXT x31663
f. TXT x31664
f. TXT x31665
f. TXT x31666
f. TXT x31667
f. TXT x31668
f. TXT x31669
f. TXT x31670
f. TXT x31671
f. TXT x31672
f. TXT x31673
f. TXT x31674
f. TXT x31675
f. TXT x31676
f. TXT x31677
f. TXT x31678
f. TXT x31679
$ORIGIN xc.c*b0.
f. TXT x31681
f. TXT x31682
f. TXT x31683
f. TXT x31684
f. TXT x31685
f. TXT x31686
f. TXT x31687
f. TXT x31688
f. TXT x31689
f. TXT x31690
f. TXT x31691
f. TXT x31692
f. TXT x31693
f. TXT x31694
f. TXT x31695
f. TXT x31696
f. TXT x31697
f. TXT x31698
f. TXT x31699
f. TXT x31700
f. TXT x31701
f. TXT x31702
f. TXT x31703
f. TXT x31704
f. TXT x31705
f. TXT x31706
f. TXT x31707
f. TXT x31708
f. TXT x31709
f. TXT x31710
f. TXT x31711
f. TXT x31712
f. TXT x31713
f. TXT x31714
f. TXT x31715
f. TXT x31716
f. TXT x31717
f. TXT x31718
f. TXT x31719
f. TXT x31720
f. TXT x31721
f. TXT x31722
f. TXT x31723
f. TXT x31724
f. TXT x31725
f. TXT x31726
f. TXT x31727
f. TXT x31728
f. TXT x31729
f. TXT x31730
f. TXT x31731
f. TXT x31732
f. TXT x31733
f. TXT x31734
f. TXT x31735
f. TXT x31736
f. TXT x31737
f. TXT x31738
f. TXT x31739
f. TXT x31740
f. TXT x31741
f. TXT x31742
f. TXT x31743
xca.0. NS yy* xyx 0bxx
f. TXT x31745
f. TXT x31746
f. TXT x31747
f. TXT x31748
f. TXT x31749
f. TXT x31750
f. TXT x31751
f. TXT x31752
f. TXT x31753
f. TXT x31754
f. TXT x31755
f. TXT x31756
f. TXT x31757
f. TXT x31758
f. TXT x31759
f. TXT x31760
f. TXT x31761
f. TXT x31762
f. TXT x31763
f. TXT x31764
f. TXT x31765
f. TXT x31766
f. TXT x31767
f. TXT x31768
f. TXT x31769
f. TXT x31770
f. TXT x31771
f. TXT x31772
f. TXT x31773
f. TXT x31774
f. TXT x31775
f. TXT x31776
f. TXT x31777
f. TXT x31778
f. TXT x31779
f. TXT x31780
f. TXT x31781
f. TXT x31782
f. TXT x31783
f. TXT x31784
f. TXT x31785
f. TXT x31786
f. TXT x31787
f. TXT x31788
f. TXT x31789
f. TXT x31790
f. TXT x31791
f. TXT x31792
f. TXT x31793
f. TXT x31794
f. TXT x31795
f. TXT x31796
f. TXT x31797
f. TXT x31798
f. TXT x31799
f. TXT x31800
f. TXT x31801
f. TXT x31802
f. TXT x31803
f. TXT x31804
f. TXT x31805
f. TXT x31806
f. TXT x31807
 NS xa *x
f. TXT x31809
f. TXT x31810
f. TXT x31811
f. TXT x31812
f. TXT x31813
f. TXT x31814
f. TXT x31815
f. TXT x31816
f. TXT x31817
f. TXT x31818
f. TXT x31819
f. TXT x31820
f. TXT x31821
f. TXT x31822
f. TXT x31823
f. TXT x31824
f. TXT x31825
f. TXT x31826
f. TXT x31827
f. TXT x31828
f. TXT x31829
f. TXT x31830
f. TXT x31831
f. TXT x31832
f. TXT x31833
f. TXT x31834
f. TXT x31835
f. TXT x31836
f. TXT x31837
f. TXT x31838
f. TXT x31839
f. TXT x31840
f. TXT x31841
f. TXT x31842
f. TXT x31843
f. TXT x31844
f. TXT x31845
f. TXT x31846
f. TXT x31847
f. TXT x31848
f. TXT x31849
f. TXT x31850
f. TXT x31851
f. TXT x31852
f. TXT x31853
f. TXT x31854
f. TXT x31855
f. TXT x31856
f. TXT x31857
f. TXT x31858
f. TXT x31859
f. TXT x31860
f. TXT x31861
f. TXT x31862
f. TXT x31863
f. TXT x31864
f. TXT x31865
f. TXT x31866
f. TXT x31867
f. TXT x31868
f. TXT x31869
f. TXT x31870
f. TXT x31871
; *x**
f. TXT x31873
f. TXT x31874
f. TXT x31875
f. TXT x31876
f. TXT x31877
f. TXT x31878
f. TXT x31879
f. TXT x31880
f. TXT x31881
f. TXT x31882
f. TXT x31883
f. TXT x31884
f. TXT x31885
f. TXT x31886
f. TXT x31887
f. TXT x31888
f. TXT x31889
f. TXT x31890
f. TXT x31891
f. TXT x31892
f. TXT x31893
f. TXT x31894
f. TXT x31895
f. TXT x31896
f. TXT x31897
f. TXT x31898
f. TXT x31899
f. TXT x31900
f. TXT x31901
f. TXT x31902
f. TXT x31903
f. TXT x31904
f. TXT x31905
f. TXT x31906
f. TXT x31907
f. TXT x31908
f. TXT x31909
f. TXT x31910
f. TXT x31911
f. TXT x31912
f. TXT x31913
f. TXT x31914
f. TXT x31915
f. TXT x31916
f. TXT x31917
f. TXT x31918
f. TXT x31919
f. TXT x31920
f. TXT x31921
f. TXT x31922
f. TXT x31923
f. TXT x31924
f. TXT x31925
f. TXT x31926
f. TXT x31927
f. TXT x31928
f. TXT x31929
f. TXT x31930
f. TXT x31931
f. TXT x31932
f. TXT x31933
f. TXT x31934
f. TXT x31935

f. TXT x31937
f. TXT x31938
f. TXT x31939
f. TXT x31940
f. TXT x31941
f. TXT x31942
f. TXT x31943
f. TXT x31944
f. TXT x31945
f. TXT x31946
f. TXT x31947
f. TXT x31948
f. TXT x31949
f. TXT x31950
f. TXT x31951
f. TXT x31952
f. TXT x31953
f. TXT x31954
f. TXT x31955
f. TXT x31956
f. TXT x31957
f. TXT x31958
f. TXT x31959
f. TXT x31960
f. TXT x31961
f. TXT x31962
f. TXT x31963
f. TXT x31964
f. TXT x31965
f. TXT x31966
f. TXT x31967
f. TXT x31968
f. TXT x31969
f. TXT x31970
f. TXT x31971
f. TXT x31972
f. TXT x31973
f. TXT x31974
f. TXT x31975
f. TXT x31976
f. TXT x31977
f. TXT x31978
f. TXT x31979
f. TXT x31980
f. TXT x31981
f. TXT x31982
f. TXT x31983
f. TXT x31984
f. TXT x31985
f. TXT x31986
f. TXT x31987
f. TXT x31988
f. TXT x31989
f. TXT x31990
f. TXT x31991
f. TXT x31992
f. TXT x31993
f. TXT x31994
f. TXT x31995
f. TXT x31996
f. TXT x31997
f. TXT x31998
f. TXT x31999
zy TXT *z0 0zy
f. TXT x32001
f. TXT x32002
f. TXT x32003
f. TXT x32004
f. TXT x32005
f. TXT x32006
f. TXT x32007
f. TXT x32008
f. TXT x32009
f. TXT x32010
f. TXT x32011
f. TXT x32012
f. TXT x32013
f. TXT x32014
f. TXT x32015
f. TXT x32016
f. TXT x32017
f. TXT x32018
f. TXT x32019
f. TXT x32020
f. TXT x32021
f. TXT x32022
f. TXT x32023
f. TXT x32024
f. TXT x32025
f. TXT x32026
f. TXT x32027
f. TXT x32028
f. TXT x32029
f. TXT x32030
f. TXT x32031
f. TXT x32032
f. TXT x32033
f. TXT x32034
f. TXT x32035
f. TXT x32036
f. TXT x32037
f. TXT x32038
f. TXT x32039
f. TXT x32040
f. TXT x32041
f. TXT x32042
f. TXT x32043
f. TXT x32044
f. TXT x32045
f. TXT x32046
f. TXT x32047
f. TXT x32048
f. TXT x32049
f. TXT x32050
f. TXT x32051
f. TXT x32052
f. TXT x32053
f. TXT x32054
f. TXT x32055
f. TXT x32056
f. TXT x32057
f. TXT x32058
f. TXT x32059
f. TXT x32060
f. TXT x32061
f. TXT x32062
f. TXT x32063
az.x. TXT *c z
f. TXT x32065
f. TXT x32066
f. TXT x32067
f. TXT x32068
f. TXT x32069
f. TXT x32070
f. TXT x32071
f. TXT x32072
f. TXT x32073
f. TXT x32074
f. TXT x32075
f. TXT x32076
f. TXT x32077
f. TXT x32078
f. TXT x32079
f. TXT x32080
f. TXT x32081
f. TXT x32082
f. TXT x32083
f. TXT x32084
f. TXT x32085
f. TXT x32086
f. TXT x32087
f. TXT x32088
f. TXT x32089
f. TXT x32090
f. TXT x32091
f. TXT x32092
f. TXT x32093
f. TXT x32094
f. TXT x32095
f. TXT x32096
f. TXT x32097
f. TXT x32098
f. TXT x32099
f. TXT x32100
f. TXT x32101
f. TXT x32102
f. TXT x32103
f. TXT x32104
f. TXT x32105
f. TXT x32106
f. TXT x32107
f. TXT x32108
f. TXT x32109
f. TXT x32110
f. TXT x32111
f. TXT x32112
f. TXT x32113
f. TXT x32114
f. TXT x32115
f. TXT x32116
f. TXT x32117
f. TXT x32118
f. TXT x32119
f. TXT x32120
f. TXT x32121
f. TXT x32122
f. TXT x32123
f. TXT x32124
f. TXT x32125
f. TXT x32126
f. TXT x32127
a TXT bxb vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
f. TXT x32129
f. TXT x32130
f. TXT x32131
f. TXT x32132
f. TXT x32133
f. TXT x32134
f. TXT x32135
f. TXT x32136
f. TXT x32137
f. TXT x32138
f. TXT x32139
f. TXT x32140
f. TXT x32141
f. TXT x32142
f. TXT x32143
f. TXT x32144
f. TXT x32145
f. TXT x32146
f. TXT x32147
f. TXT x32148
f. TXT x32149
f. TXT x32150
f. TXT x32151
f. TXT x32152
f. TXT x32153
f. TXT x32154
f. TXT x32155
f. TXT x32156
f. TXT x32157
f. TXT x32158
f. TXT x32159
f. TXT x32160
f. TXT x32161
f. TXT x32162
f. TXT x32163
f. TXT x32164
f. TXT x32165
f. TXT x32166
f. TXT x32167
f. TXT x32168
f. TXT x32169
f. TXT x32170
f. TXT x32171
f. TXT x32172
f. TXT x32173
f. TXT x32174
f. TXT x32175
f. TXT x32176
f. TXT x32177
f. TXT x32178
f. TXT x32179
f. TXT x32180
f. TXT x32181
f. TXT x32182
f. TXT x32183
f. TXT x32184
f. TXT x32185
f. TXT x32186
f. TXT x32187
f. TXT x32188
f. TXT x32189
f. TXT x32190
f. TXT x32191
0-c. NS 0cb*
f. TXT x32193
f. TXT x32194
f. TXT x32195
f. TXT x32196
f. TXT x32197
f. TXT x32198
f. TXT x32199
f. TXT x32200
f. TXT x32201
f. TXT x32202
f. TXT x32203
f. TXT x32204
f. TXT x32205
f. TXT x32206
f. TXT x32207
f. TXT x32208
f. TXT x32209
f. TXT x32210
f. TXT x32211
f. TXT x32212
f. TXT x32213
f. TXT x32214
f. TXT x32215
f. TXT x32216
f. TXT x32217
f. TXT x32218
f. TXT x32219
f. TXT x32220
f. TXT x32221
f. TXT x32222
f. TXT x32223
f. TXT x32224
f. TXT x32225
f. TXT x32226
f. TXT x32227
f. TXT x32228
f. TXT x32229
f. TXT x32230
f. TXT x32231
f. TXT x32232
f. TXT x32233
f. TXT x32234
f. TXT x32235
f. TXT x32236
f. TXT x32237
f. TXT x32238
f. TXT x32239
f. TXT x32240
f. TXT x32241
f. TXT x32242
f. TXT x32243
f. TXT x32244
f. TXT x32245
f. TXT x32246
f. TXT x32247
f. TXT x32248
f. TXT x32249
f. TXT x32250
f. TXT x32251
f. TXT x32252
f. TXT x32253
f. TXT x32254
f. TXT x32255
@ TXT c0
f. TXT x32257
f. TXT x32258
f. TXT x32259
f. TXT x32260
f. TXT x32261
f. TXT x32262
f. TXT x32263
f. TXT x32264
f. TXT x32265
f. TXT x32266
f. TXT x32267
f. TXT x32268
f. TXT x32269
f. TXT x32270
f. TXT x32271
f. TXT x32272
f. TXT x32273
f. TXT x32274
f. TXT x32275
f. TXT x32276
f. TXT x32277
f. TXT x32278
f. TXT x32279
f. TXT x32280
f. TXT x32281
f. TXT x32282
f. TXT x32283
f. TXT x32284
f. TXT x32285
f. TXT x32286
f. TXT x32287
f. TXT x32288
f. TXT x32289
f. TXT x32290
f. TXT x32291
f. TXT x32292
f. TXT x32293
f. TXT x32294
f. TXT x32295
f. TXT x32296
f. TXT x32297
f. TXT x32298
f. TXT x32299
f. TXT x32300
f. TXT x32301
f. TXT x32302
f. TXT x32303
f. TXT x32304
f. TXT x32305
f. TXT x32306
f. TXT x32307
f. TXT x32308
f. TXT x32309
f. TXT x32310
f. TXT x32311
f. TXT x32312
f. TXT x32313
f. TXT x32314
f. TXT x32315
f. TXT x32316
f. TXT x32317
f. TXT x32318
f. TXT x32319
 TXT zbz xz
f. TXT x32321
f. TXT x32322
f. TXT x32323
f. TXT x32324
f. TXT x32325
f. TXT x32326
f. TXT x32327
f. TXT x32328
f. TXT x32329
f. TXT x32330
f. TXT x32331
f. TXT x32332
f. TXT x32333
f. TXT x32334
f. TXT x32335
f. TXT x32336
f. TXT x32337
f. TXT x32338
f. TXT x32339
f. TXT x32340
f. TXT x32341
f. TXT x32342
f. TXT x32343
f. TXT x32344
f. TXT x32345
f. TXT x32346
f. TXT x32347
f. TXT x32348
f. TXT x32349
f. TXT x32350
f. TXT x32351
f. TXT x32352
f. TXT x32353
f. TXT x32354
f. TXT x32355
f. TXT x32356
f. TXT x32357
f. TXT x32358
f. TXT x32359
f. TXT x32360
f. TXT x32361
f. TXT x32362
f. TXT x32363
f. TXT x32364
f. TXT x32365
f. TXT x32366
f. TXT x32367
f. TXT x32368
f. TXT x32369
f. TXT x32370
f. TXT x32371
f. TXT x32372
f. TXT x32373
f. TXT x32374
f. TXT x32375
f. TXT x32376
f. TXT x32377
f. TXT x32378
f. TXT x32379
f. TXT x32380
f. TXT x32381
f. TXT x32382
f. TXT x32383
*. NS z0y* xca-
f. TXT x32385
f. TXT x32386
f. TXT x32387
f. TXT x32388
f. TXT x32389
f. TXT x32390
f. TXT x32391
f. TXT x32392
f. TXT x32393
f. TXT x32394
f. TXT x32395
f. TXT x32396
f. TXT x32397
f. TXT x32398
f. TXT x32399
f. TXT x32400
f. TXT x32401
f. TXT x32402
f. TXT x32403
f. TXT x32404
f. TXT x32405
f. TXT x32406
f. TXT x32407
f. TXT x32408
f. TXT x32409
f. TXT x32410
f. TXT x32411
f. TXT x32412
f. TXT x32413
f. TXT x32414
f. TXT x32415
f. TXT x32416
f. TXT x32417
f. TXT x32418
f. TXT x32419
f. TXT x32420
f. TXT x32421
f. TXT x32422
f. TXT x32423
f. TXT x32424
f. TXT x32425
f. TXT x32426
f. TXT x32427
f. TXT x32428
f. TXT x32429
f. TXT x32430
f. TXT x32431
f. TXT x32432
f. TXT x32433
f. TXT x32434
f. TXT x32435
f. TXT x32436
f. TXT x32437
f. TXT x32438
f. TXT x32439
f. TXT x32440
f. TXT x32441
f. TXT x32442
f. TXT x32443
f. TXT x32444
f. TXT x32445
f. TXT x32446
f. TXT x32447
; 0
f. TXT x32449
f. TXT x32450
f. TXT x32451
f. TXT x32452
f. TXT x32453
f. TXT x32454
f. TXT x32455
f. TXT x32456
f. TXT x32457
f. TXT x32458
f. TXT x32459
f. TXT x32460
f. TXT x32461
f. TXT x32462
f. TXT x32463
f. TXT x32464
f. TXT x32465
f. TXT x32466
f. TXT x32467
f. TXT x32468
f. TXT x32469
f. TXT x32470
f. TXT x32471
f. TXT x32472
f. TXT x32473
f. TXT x32474
f. TXT x32475
f. TXT x32476
f. TXT x32477
f. TXT x32478
f. TXT x32479
f. TXT x32480
f. TXT x32481
f. TXT x32482
f. TXT x32483
f. TXT x32484
f. TXT x32485
f. TXT x32486
f. TXT x32487
f. TXT x32488
f. TXT x32489
f. TXT x32490
f. TXT x32491
f. TXT x32492
f. TXT x32493
f. TXT x32494
f. TXT x32495
f. TXT x32496
f. TXT x32497
f. TXT x32498
f. TXT x32499
f. TXT x32500
f. TXT x32501
f. TXT x32502
f. TXT x32503
f. TXT x32504
f. TXT x32505
f. TXT x32506
f. TXT x32507
f. TXT x32508
f. TXT x32509
f. TXT x32510
f. TXT x32511
y-c A *x x-xz
f. TXT x32513
f. TXT x32514
f. TXT x32515
f. TXT x32516
f. TXT x32517
f. TXT x32518
f. TXT x32519
f. TXT x32520
f. TXT x32521
f. TXT x32522
f. TXT x32523
f. TXT x32524
f. TXT x32525
f. TXT x32526
f. TXT x32527
f. TXT x32528
f. TXT x32529
f. TXT x32530
f. TXT x32531
f. TXT x32532
f. TXT x32533
f. TXT x32534
f. TXT x32535
f. TXT x32536
f. TXT x32537
f. TXT x32538
f. TXT x32539
f. TXT x32540
f. TXT x32541
f. TXT x32542
f. TXT x32543
f. TXT x32544
f. TXT x32545
f. TXT x32546
f. TXT x32547
f. TXT x32548
f. TXT x32549
f. TXT x32550
f. TXT x32551
f. TXT x32552
f. TXT x32553
f. TXT x32554
f. TXT x32555
f. TXT x32556
f. TXT x32557
f. TXT x32558
f. TXT x32559
f. TXT x32560
f. TXT x32561
f. TXT x32562
f. TXT x32563
f. TXT x32564
f. TXT x32565
f. TXT x32566
f. TXT x32567
f. TXT x32568
f. TXT x32569
f. TXT x32570
f. TXT x32571
f. TXT x32572
f. TXT x32573
f. TXT x32574
f. TXT x32575
; b0-x
f. TXT x32577
f. TXT x32578
f. TXT x32579
f. TXT x32580
f. TXT x32581
f. TXT x32582
f. TXT x32583
f. TXT x32584
f. TXT x32585
f. TXT x32586
f. TXT x32587
f. TXT x32588
f. TXT x32589
f. TXT x32590
f. TXT x32591
f. TXT x32592
f. TXT x32593
f. TXT x32594
f. TXT x32595
f. TXT x32596
f. TXT x32597
f. TXT x32598
f. TXT x32599
f. TXT x32600
f. TXT x32601
f. TXT x32602
f. TXT x32603
f. TXT x32604
f. TXT x32605
f. TXT x32606
f. TXT x32607
f. TXT x32608
f. TXT x32609
f. TXT x32610
f. TXT x32611
f. TXT x32612
f. TXT x32613
f. TXT x32614
f. TXT x32615
f. TXT x32616
f. TXT x32617
f. TXT x32618
f. TXT x32619
f. TXT x32620
f. TXT x32621
f. TXT x32622
f. TXT x32623
f. TXT x32624
f. TXT x32625
f. TXT x32626
f. TXT x32627
f. TXT x32628
f. TXT x32629
f. TXT x32630
f. TXT x32631
f. TXT x32632
f. TXT x32633
f. TXT x32634
f. TXT x32635
f. TXT x32636
f. TXT x32637
f. TXT x32638
f. TXT x32639
x A -*cz -xby ybxx
f. TXT x32641
f. TXT x32642
f. TXT x32643
f. TXT x32644
f. TXT x32645
f. TXT x32646
f. TXT x32647
f. TXT x32648
f. TXT x32649
f. TXT x32650
f. TXT x32651
f. TXT x32652
f. TXT x32653
f. TXT x32654
f. TXT x32655
f. TXT x32656
f. TXT x32657
f. TXT x32658
f. TXT x32659
f. TXT x32660
f. TXT x32661
f. TXT x32662
f. TXT x32663
f. TXT x32664
f. TXT x32665
f. TXT x32666
f. TXT x32667
f. TXT x32668
f. TXT x32669
f. TXT x32670
f. TXT x32671
f. TXT x32672
f. TXT x32673
f. TXT x32674
f. TXT x32675
f. TXT x32676
f. TXT x32677
f. TXT x32678
f. TXT x32679
f. TXT x32680
f. TXT x32681
f. TXT x32682
f. TXT x32683
f. TXT x32684
f. TXT x32685
f. TXT x32686
f. TXT x32687
f. TXT x32688
f. TXT x32689
f. TXT x32690
f. TXT x32691
f. TXT x32692
f. TXT x32693
f. TXT x32694
f. TXT x32695
f. TXT x32696
f. TXT x32697
f. TXT x32698
f. TXT x32699
f. TXT x32700
f. TXT x32701
f. TXT x32702
f. TXT x32703
 TXT bx
f. TXT x32705
f. TXT x32706
f. TXT x32707
f. TXT x32708
f. TXT x32709
f. TXT x32710
f. TXT x32711
f. TXT x32712
f. TXT x32713
f. TXT x32714
f. TXT x32715
f. TXT x32716
f. TXT x32717
f. TXT x32718
f. TXT x32719
f. TXT x32720
f. TXT x32721
f. TXT x32722
f. TXT x32723
f. TXT x32724
f. TXT x32725
f. TXT x32726
f. TXT x32727
f. TXT x32728
f. TXT x32729
f. TXT x32730
f. TXT x32731
f. TXT x32732
f. TXT x32733
f. TXT x32734
f. TXT x32735
f. TXT x32736
f. TXT x32737
f. TXT x32738
f. TXT x32739
f. TXT x32740
f. TXT x32741
f. TXT x32742
f. TXT x32743
f. TXT x32744
f. TXT x32745
f. TXT x32746
f. TXT x32747
f. TXT x32748
f. TXT x32749
f. TXT x32750
f. TXT x32751
f. TXT x32752
f. TXT x32753
f. TXT x32754
f. TXT x32755
f. TXT x32756
f. TXT x32757
f. TXT x32758
f. TXT x32759
f. TXT x32760
f. TXT x32761
f. TXT x32762
f. TXT x32763
f. TXT x32764
f. TXT x32765
f. TXT x32766
f. TXT x32767
; -bb
f. TXT x32769
f. TXT x32770
f. TXT x32771
f. TXT x32772
f. TXT x32773
f. TXT x32774
f. TXT x32775
f. TXT x32776
f. TXT x32777
f. TXT x32778
f. TXT x32779
f. TXT x32780
f. TXT x32781
f. TXT x32782
f. TXT x32783
f. TXT x32784
f. TXT x32785
f. TXT x32786
f. TXT x32787
f. TXT x32788
f. TXT x32789
f. TXT x32790
f. TXT x32791
f. TXT x32792
f. TXT x32793
f. TXT x32794
f. TXT x32795
f. TXT x32796
f. TXT x32797
f. TXT x32798
f. TXT x32799
f. TXT x32800
f. TXT x32801
f. TXT x32802
f. TXT x32803
f. TXT x32804
f. TXT x32805
f. TXT x32806
f. TXT x32807
f. TXT x32808
f. TXT x32809
f. TXT x32810
f. TXT x32811
f. TXT x32812
f. TXT x32813
f. TXT x32814
f. TXT x32815
f. TXT x32816
f. TXT x32817
f. TXT x32818
f. TXT x32819
f. TXT x32820
f. TXT x32821
f. TXT x32822
f. TXT x32823
f. TXT x32824
f. TXT x32825
f. TXT x32826
f. TXT x32827
f. TXT x32828
f. TXT x32829
f. TXT x32830
f. TXT x32831
a*0a.z0-0. A yy-0 c*b ccc
f. TXT x32833
f. TXT x32834
f. TXT x32835
f. TXT x32836
f. TXT x32837
f. TXT x32838
f. TXT x32839
f. TXT x32840
f. TXT x32841
f. TXT x32842
f. TXT x32843
f. TXT x32844
f. TXT x32845
f. TXT x32846
f. TXT x32847
f. TXT x32848
f. TXT x32849
f. TXT x32850
f. TXT x32851
f. TXT x32852
f. TXT x32853
f. TXT x32854
f. TXT x32855
f. TXT x32856
f. TXT x32857
f. TXT x32858
f. TXT x32859
f. TXT x32860
f. TXT x32861
f. TXT x32862
f. TXT x32863
f. TXT x32864
f. TXT x32865
f. TXT x32866
f. TXT x32867
f. TXT x32868
f. TXT x32869
f. TXT x32870
f. TXT x32871
f. TXT x32872
f. TXT x32873
f. TXT x32874
f. TXT x32875
f. TXT x32876
f. TXT x32877
f. TXT x32878
f. TXT x32879
f. TXT x32880
f. TXT x32881
f. TXT x32882
f. TXT x32883
f. TXT x32884
f. TXT x32885
f. TXT x32886
f. TXT x32887
f. TXT x32888
f. TXT x32889
f. TXT x32890
f. TXT x32891
f. TXT x32892
f. TXT x32893
f. TXT x32894
f. TXT x32895
$TTL 0
f. TXT x32897
f. TXT x32898
f. TXT x32899
f. TXT x32900
f. TXT x32901
f. TXT x32902
f. TXT x32903
f. TXT x32904
f. TXT x32905
f. TXT x32906
f. TXT x32907
f. TXT x32908
f. TXT x32909
f. TXT x32910
f. TXT x32911
f. TXT x32912
f. TXT x32913
f. TXT x32914
f. TXT x32915
f. TXT x32916
f. TXT x32917
f. TXT x32918
f. TXT x32919
f. TXT x32920
f. TXT x32921
f. TXT x32922
f. TXT x32923
f. TXT x32924
f. TXT x32925
f. TXT x32926
f. TXT x32927
f. TXT x32928
f. TXT x32929
f. TXT x32930
f. TXT x32931
f. TXT x32932
f. TXT x32933
f. TXT x32934
f. TXT x32935
f. TXT x32936
f. TXT x32937
f. TXT x32938
f. TXT x32939
f. TXT x32940
f. TXT x32941
f. TXT x32942
f. TXT x32943
f. TXT x32944
f. TXT x32945
f. TXT x32946
f. TXT x32947
f. TXT x32948
f. TXT x32949
f. TXT x32950
f. TXT x32951
f. TXT x32952
f. TXT x32953
f. TXT x32954
f. TXT x32955
f. TXT x32956
f. TXT x32957
f. TXT x32958
f. TXT x32959
zc. NS zz yb
f. TXT x32961
f. TXT x32962
f. TXT x32963
f. TXT x32964
f. TXT x32965
f. TXT x32966
f. TXT x32967
f. TXT x32968
f. TXT x32969
f. TXT x32970
f. TXT x32971
f. TXT x32972
f. TXT x32973
f. TXT x32974
f. TXT x32975
f. TXT x32976
f. TXT x32977
f. TXT x32978
f. TXT x32979
f. TXT x32980
f. TXT x32981
f. TXT x32982
f. TXT x32983
f. TXT x32984
f. TXT x32985
f. TXT x32986
f. TXT x32987
f. TXT x32988
f. TXT x32989
f. TXT x32990
f. TXT x32991
f. TXT x32992
f. TXT x32993
f. TXT x32994
f. TXT x32995
f. TXT x32996
f. TXT x32997
f. TXT x32998
f. TXT x32999
f. TXT x33000
f. TXT x33001
f. TXT x33002
f. TXT x33003
f. TXT x33004
f. TXT x33005
f. TXT x33006
f. TXT x33007
f. TXT x33008
f. TXT x33009
f. TXT x33010
f. TXT x33011
f. TXT x33012
f. TXT x33013
f. TXT x33014
f. TXT x33015
f. TXT x33016
f. TXT x33017
f. TXT x33018
f. TXT x33019
f. TXT x33020
f. TXT x33021
f. TXT x33022
f. TXT x33023
x-.a-. A z0a
f. TXT x33025
f. TXT x33026
f. TXT x33027
f. TXT x33028
f. TXT x33029
f. TXT x33030
f. TXT x33031
f. TXT x33032
f. TXT x33033
f. TXT x33034
f. TXT x33035
f. TXT x33036
f. TXT x33037
f. TXT x33038
f. TXT x33039
f. TXT x33040
f. TXT x33041
f. TXT x33042
f. TXT x33043
f. TXT x33044
f. TXT x33045
f. TXT x33046
f. TXT x33047
f. TXT x33048
f. TXT x33049
f. TXT x33050
f. TXT x33051
f. TXT x33052
f. TXT x33053
f. TXT x33054
f. TXT x33055
f. TXT x33056
f. TXT x33057
f. TXT x33058
f. TXT x33059
f. TXT x33060
f. TXT x33061
f. TXT x33062
f. TXT x33063
f. TXT x33064
f. TXT x33065
f. TXT x33066
f. TXT x33067
f. TXT x33068
f. TXT x33069
f. TXT x33070
f. TXT x33071
f. TXT x33072
f. TXT x33073
f. TXT x33074
f. TXT x33075
f. TXT x33076
f. TXT x33077
f. TXT x33078
f. TXT x33079
f. TXT x33080
f. TXT x33081
f. TXT x33082
f. TXT x33083
f. TXT x33084
f. TXT x33085
f. TXT x33086
f. TXT x33087
-zay NS -a
f. TXT x33089
f. TXT x33090
f. TXT x33091
f. TXT x33092
f. TXT x33093
f. TXT x33094
f. TXT x33095
f. TXT x33096
f. TXT x33097
f. TXT x33098
f. TXT x33099
f. TXT x33100
f. TXT x33101
f. TXT x33102
f. TXT x33103
f. TXT x33104
f. TXT x33105
f. TXT x33106
f. TXT x33107
f. TXT x33108
f. TXT x33109
f. TXT x33110
f. TXT x33111
f. TXT x33112
f. TXT x33113
f. TXT x33114
f. TXT x33115
f. TXT x33116
f. TXT x33117
f. TXT x33118
f. TXT x33119
f. TXT x33120
f. TXT x33121
f. TXT x33122
f. TXT x33123
f. TXT x33124
f. TXT x33125
f. TXT x33126
f. TXT x33127
f. TXT x33128
f. TXT x33129
f. TXT x33130
f. TXT x33131
f. TXT x33132
f. TXT x33133
f. TXT x33134
f. TXT x33135
f. TXT x33136
f. TXT x33137
f. TXT x33138
f. TXT x33139
f. TXT x33140
f. TXT x33141
f. TXT x33142
f. TXT x33143
f. TXT x33144
f. TXT x33145
f. TXT x33146
f. TXT x33147
f. TXT x33148
f. TXT x33149
f. TXT x33150
f. TXT x33151
 TXT bbz-
f. TXT x33153
f. TXT x33154
f. TXT x33155
f. TXT x33156
f. TXT x33157
f. TXT x33158
f. TXT x33159
f. TXT x33160
f. TXT x33161
f. TXT x33162
f. TXT x33163
f. TXT x33164
f. TXT x33165
f. TXT x33166
f. TXT x33167
f. TXT x33168
f. TXT x33169
f. TXT x33170
f. TXT x33171
f. TXT x33172
f. TXT x33173
f. TXT x33174
f. TXT x33175
f. TXT x33176
f. TXT x33177
f. TXT x33178
f. TXT x33179
f. TXT x33180
f. TXT x33181
f. TXT x33182
f. TXT x33183
f. TXT x33184
f. TXT x33185
f. TXT x33186
f. TXT x33187
f. TXT x33188
f. TXT x33189
f. TXT x33190
f. TXT x33191
f. TXT x33192
f. TXT x33193
f. TXT x33194
f. TXT x33195
f. TXT x33196
f. TXT x33197
f. TXT x33198
f. TXT x33199
f. TXT x33200
f. TXT x33201
f. TXT x33202
f. TXT x33203
f. TXT x33204
f. TXT x33205
f. TXT x33206
f. TXT x33207
f. TXT x33208
f. TXT x33209
f. TXT x33210
f. TXT x33211
f. TXT x33212
f. TXT x33213
f. TXT x33214
f. TXT x33215
-*0 TXT -z
f. TXT x33217
f. TXT x33218
f. TXT x33219
f. TXT x33220
f. TXT x33221
f. TXT x33222
f. TXT x33223
f. TXT x33224
f. TXT x33225
f. TXT x33226
f. TXT x33227
f. TXT x33228
f. TXT x33229
f. TXT x33230
f. TXT x33231
f. TXT x33232
f. TXT x33233
f. TXT x33234
f. TXT x33235
f. TXT x33236
f. TXT x33237
f. TXT x33238
f. TXT x33239
f. TXT x33240
f. TXT x33241
f. TXT x33242
f. TXT x33243
f. TXT x33244
f. TXT x33245
f. TXT x33246
f. TXT x33247
f. TXT x33248
f. TXT x33249
f. TXT x33250
f. TXT x33251
f. TXT x33252
f. TXT x33253
f. TXT x33254
f. TXT x33255
f. TXT x33256
f. TXT x33257
f. TXT x33258
f. TXT x33259
f. TXT x33260
f. TXT x33261
f. TXT x33262
f. TXT x33263
f. TXT x33264
f. TXT x33265
f. TXT x33266
f. TXT x33267
f. TXT x33268
f. TXT x33269
f. TXT x33270
f. TXT x33271
f. TXT x33272
f. TXT x33273
f. TXT x33274
f. TXT x33275
f. TXT x33276
f. TXT x33277
f. TXT x33278
f. TXT x33279
$TTL 560
f. TXT x33281
f. TXT x33282
f. TXT x33283
f. TXT x33284
f. TXT x33285
f. TXT x33286
f. TXT x33287
f. TXT x33288
f. TXT x33289
f. TXT x33290
f. TXT x33291
f. TXT x33292
f. TXT x33293
f. TXT x33294
f. TXT x33295
f. TXT x33296
f. TXT x33297
f. TXT x33298
f. TXT x33299
f. TXT x33300
f. TXT x33301
f. TXT x33302
f. TXT x33303
f. TXT x33304
f. TXT x33305
f. TXT x33306
f. TXT x33307
f. TXT x33308
f. TXT x33309
f. TXT x33310
f. TXT x33311
f. TXT x33312
f. TXT x33313
f. TXT x33314
f. TXT x33315
f. TXT x33316
f. TXT x33317
f. TXT x33318
f. TXT x33319
f. TXT x33320
f. TXT x33321
f. TXT x33322
f. TXT x33323
f. TXT x33324
f. TXT x33325
f. TXT x33326
f. TXT x33327
f. TXT x33328
f. TXT x33329
f. TXT x33330
f. TXT x33331
f. TXT x33332
f. TXT x33333
f. TXT x33334
f. TXT x33335
f. TXT x33336
f. TXT x33337
f. TXT x33338
f. TXT x33339
f. TXT x33340
f. TXT x33341
f. TXT x33342
f. TXT x33343

f. TXT x33345
f. TXT x33346
f. TXT x33347
f. TXT x33348
f. TXT x33349
f. TXT x33350
f. TXT x33351
f. TXT x33352
f. TXT x33353
f. TXT x33354
f. TXT x33355
f. TXT x33356
f. TXT x33357
f. TXT x33358
f. TXT x33359
f. TXT x33360
f. TXT x33361
f. TXT x33362
f. TXT x33363
f. TXT x33364
f. TXT x33365
f. TXT x33366
f. TXT x33367
f. TXT x33368
f. TXT x33369
f. TXT x33370
f. TXT x33371
f. TXT x33372
f. TXT x33373
f. TXT x33374
f. TXT x33375
f. TXT x33376
f. TXT x33377
f. TXT x33378
f. TXT x33379
f. TXT x33380
f. TXT x33381
f. TXT x33382
f. TXT x33383
f. TXT x33384
f. TXT x33385
f. TXT x33386
f. TXT x33387
f. TXT x33388
f. TXT x33389
f. TXT x33390
f. TXT x33391
f. TXT x33392
f. TXT x33393
f. TXT x33394
f. TXT x33395
f. TXT x33396
f. TXT x33397
f. TXT x33398
f. TXT x33399
f. TXT x33400
f. TXT x33401
f. TXT x33402
f. TXT x33403
f. TXT x33404
f. TXT x33405
f. TXT x33406
f. TXT x33407

f. TXT x33409
f. TXT x33410
f. TXT x33411
f. TXT x33412
f. TXT x33413
f. TXT x33414
f. TXT x33415
f. TXT x33416
f. TXT x33417
f. TXT x33418
f. TXT x33419
f. TXT x33420
f. TXT x33421
f. TXT x33422
f. TXT x33423
f. TXT x33424
f. TXT x33425
f. TXT x33426
f. TXT x33427
f. TXT x33428
f. TXT x33429
f. TXT x33430
f. TXT x33431
f. TXT x33432
f. TXT x33433
f. TXT x33434
f. TXT x33435
f. TXT x33436
f. TXT x33437
f. TXT x33438
f. TXT x33439
f. TXT x33440
f. TXT x33441
f. TXT x33442
f. TXT x33443
f. TXT x33444
f. TXT x33445
f. TXT x33446
f. TXT x33447
f. TXT x33448
f. TXT x33449
f. TXT x33450
f. TXT x33451
f. TXT x33452
f. TXT x33453
f. TXT x33454
f. TXT x33455
f. TXT x33456
f. TXT x33457
f. TXT x33458
f. TXT x33459
f. TXT x33460
f. TXT x33461
f. TXT x33462
f. TXT x33463
f. TXT x33464
f. TXT x33465
f. TXT x33466
f. TXT x33467
f. TXT x33468
f. TXT x33469
f. TXT x33470
f. TXT x33471
 NS bycx
f. TXT x33473
f. TXT x33474
f. TXT x33475
f. TXT x33476
f. TXT x33477
f. TXT x33478
f. TXT x33479
f. TXT x33480
f. TXT x33481
f. TXT x33482
f. TXT x33483
f. TXT x33484
f. TXT x33485
f. TXT x33486
f. TXT x33487
f. TXT x33488
f. TXT x33489
f. TXT x33490
f. TXT x33491
f. TXT x33492
f. TXT x33493
f. TXT x33494
f. TXT x33495
f. TXT x33496
f. TXT x33497
f. TXT x33498
f. TXT x33499
f. TXT x33500
f. TXT x33501
f. TXT x33502
f. TXT x33503
f. TXT x33504
f. TXT x33505
f. TXT x33506
f. TXT x33507
f. TXT x33508
f. TXT x33509
f. TXT x33510
f. TXT x33511
f. TXT x33512
f. TXT x33513
f. TXT x33514
f. TXT x33515
f. TXT x33516
f. TXT x33517
f. TXT x33518
f. TXT x33519
f. TXT x33520
f. TXT x33521
f. TXT x33522
f. TXT x33523
f. TXT x33524
f. TXT x33525
f. TXT x33526
f. TXT x33527
f. TXT x33528
f. TXT x33529
f. TXT x33530
f. TXT x33531
f. TXT x33532
f. TXT x33533
f. TXT x33534
f. TXT x33535
 NS xx* *y* x-x
f. TXT x33537
f. TXT x33538
f. TXT x33539
f. TXT x33540
f. TXT x33541
f. TXT x33542
f. TXT x33543
f. TXT x33544
f. TXT x33545
f. TXT x33546
f. TXT x33547
f. TXT x33548
f. TXT x33549
f. TXT x33550
f. TXT x33551
f. TXT x33552
f. TXT x33553
f. TXT x33554
f. TXT x33555
f. TXT x33556
f. TXT x33557
f. TXT x33558
f. TXT x33559
f. TXT x33560
f. TXT x33561
f. TXT x33562
f. TXT x33563
f. TXT x33564
f. TXT x33565
f. TXT x33566
f. TXT x33567
f. TXT x33568
f. TXT x33569
f. TXT x33570
f. TXT x33571
f. TXT x33572
f. TXT x33573
f. TXT x33574
f. TXT x33575
f. TXT x33576
f. TXT x33577
f. TXT x33578
f. TXT x33579
f. TXT x33580
f. TXT x33581
f. TXT x33582
f. TXT x33583
f. TXT x33584
f. TXT x33585
f. TXT x33586
f. TXT x33587
f. TXT x33588
f. TXT x33589
f. TXT x33590
f. TXT x33591
f. TXT x33592
f. TXT x33593
f. TXT x33594
f. TXT x33595
f. TXT x33596
f. TXT x33597
f. TXT x33598
f. TXT x33599
@ TXT xy 00c0
f. TXT x33601
f. TXT x33602
f. TXT x33603
f. TXT x33604
f. TXT x33605
f. TXT x33606
f. TXT x33607
f. TXT x33608
f. TXT x33609
f. TXT x33610
f. TXT x33611
f. TXT x33612
f. TXT x33613
f. TXT x33614
f. TXT x33615
f. TXT x33616
f. TXT x33617
f. TXT x33618
f. TXT x33619
f. TXT x33620
f. TXT x33621
f. TXT x33622
f. TXT x33623
f. TXT x33624
f. TXT x33625
f. TXT x33626
f. TXT x33627
f. TXT x33628
f. TXT x33629
f. TXT x33630
f. TXT x33631
f. TXT x33632
f. TXT x33633
f. TXT x33634
f. TXT x33635
f. TXT x33636
f. TXT x33637
f. TXT x33638
f. TXT x33639
f. TXT x33640
f. TXT x33641
f. TXT x33642
f. TXT x33643
f. TXT x33644
f. TXT x33645
f. TXT x33646
f. TXT x33647
f. TXT x33648
f. TXT x33649
f. TXT x33650
f. TXT x33651
f. TXT x33652
f. TXT x33653
f. TXT x33654
f. TXT x33655
f. TXT x33656
f. TXT x33657
f. TXT x33658
f. TXT x33659
f. TXT x33660
f. TXT x33661
f. TXT x33662
f. TXT x33663
$ORIGIN x-.
f. TXT x33665
f. TXT x33666
f. TXT x33667
f. TXT x33668
f. TXT x33669
f. TXT x33670
f. TXT x33671
f. TXT x33672
f. TXT x33673
f. TXT x33674
f. TXT x33675
f. TXT x33676
f. TXT x33677
f. TXT x33678
f. TXT x33679
f. TXT x33680
f. TXT x33681
f. TXT x33682
f. TXT x33683
f. TXT x33684
f. TXT x33685
f. TXT x33686
f. TXT x33687
f. TXT x33688
f. TXT x33689
f. TXT x33690
f. TXT x33691
f. TXT x33692
f. TXT x33693
f. TXT x33694
f. TXT x33695
f. TXT x33696
f. TXT x33697
f. TXT x33698
f. TXT x33699
f. TXT x33700
f. TXT x33701
f. TXT x33702
f. TXT x33703
f. TXT x33704
f. TXT x33705
f. TXT x33706
f. TXT x33707
f. TXT x33708
f. TXT x33709
f. TXT x33710
f. TXT x33711
f. TXT x33712
f. TXT x33713
f. TXT x33714
f. TXT x33715
f. TXT x33716
f. TXT x33717
f. TXT x33718
f. TXT x33719
f. TXT x33720
f. TXT x33721
f. TXT x33722
f. TXT x33723
f. TXT x33724
f. TXT x33725
f. TXT x33726
f. TXT x33727
 A yc-
f. TXT x33729
f. TXT x33730
f. TXT x33731
f. TXT x33732
f. TXT x33733
f. TXT x33734
f. TXT x33735
f. TXT x33736
f. TXT x33737
f. TXT x33738
f. TXT x33739
f. TXT x33740
f. TXT x33741
f. TXT x33742
f. TXT x33743
f. TXT x33744
f. TXT x33745
f. TXT x33746
f. TXT x33747
f. TXT x33748
f. TXT x33749
f. TXT x33750
f. TXT x33751
f. TXT x33752
f. TXT x33753
f. TXT x33754
f. TXT x33755
f. TXT x33756
f. TXT x33757
f. TXT x33758
f. TXT x33759
f. TXT x33760
f. TXT x33761
f. TXT x33762
f. TXT x33763
f. TXT x33764
f. TXT x33765
f. TXT x33766
f. TXT x33767
f. TXT x33768
f. TXT x33769
f. TXT x33770
f. TXT x33771
f. TXT x33772
f. TXT x33773
f. TXT x33774
f. TXT x33775
f. TXT x33776
f. TXT x33777
f. TXT x33778
f. TXT x33779
f. TXT x33780
f. TXT x33781
f. TXT x33782
f. TXT x33783
f. TXT x33784
f. TXT x33785
f. TXT x33786
f. TXT x33787
f. TXT x33788
f. TXT x33789
f. TXT x33790
f. TXT x33791
$ORIGIN ay*.az.
f. TXT x33793
f. TXT x33794
f. TXT x33795
f. TXT x33796
f. TXT x33797
f. TXT x33798
f. TXT x33799
f. TXT x33800
f. TXT x33801
f. TXT x33802
f. TXT x33803
f. TXT x33804
f. TXT x33805
f. TXT x33806
f. TXT x33807
f. TXT x33808
f. TXT x33809
f. TXT x33810
f. TXT x33811
f. TXT x33812
f. TXT x33813
f. TXT x33814
f. TXT x33815
f. TXT x33816
f. TXT x33817
f. TXT x33818
f. TXT x33819
f. TXT x33820
f. TXT x33821
f. TXT x33822
f. TXT x33823
f. TXT x33824
f. TXT x33825
f. TXT x33826
f. TXT x33827
f. TXT x33828
f. TXT x33829
f. TXT x33830
f. TXT x33831
f. TXT x33832
f. TXT x33833
f. TXT x33834
f. TXT x33835
f. TXT x33836
f. TXT x33837
f. TXT x33838
f. TXT x33839
f. TXT x33840
f. TXT x33841
f. TXT x33842
f. TXT x33843
f. TXT x33844
f. TXT x33845
f. TXT x33846
f. TXT x33847
f. TXT x33848
f. TXT x33849
f. TXT x33850
f. TXT x33851
f. TXT x33852
f. TXT x33853
f. TXT x33854
f. TXT x33855
@ A *a
f. TXT x33857
f. TXT x33858
f. TXT x33859
f. TXT x33860
f. TXT x33861
f. TXT x33862
f. TXT x33863
f. TXT x33864
f. TXT x33865
f. TXT x33866
f. TXT x33867
f. TXT x33868
f. TXT x33869
f. TXT x33870
f. TXT x33871
f. TXT x33872
f. TXT x33873
f. TXT x33874
f. TXT x33875
f. TXT x33876
f. TXT x33877
f. TXT x33878
f. TXT x33879
f. TXT x33880
f. TXT x33881
f. TXT x33882
f. TXT x33883
f. TXT x33884
f. TXT x33885
f. TXT x33886
f. TXT x33887
f. TXT x33888
f. TXT x33889
f. TXT x33890
f. TXT x33891
f. TXT x33892
f. TXT x33893
f. TXT x33894
f. TXT x33895
f. TXT x33896
f. TXT x33897
f. TXT x33898
f. TXT x33899
f. TXT x33900
f. TXT x33901
f. TXT x33902
f. TXT x33903
f. TXT x33904
f. TXT x33905
f. TXT x33906
f. TXT x33907
f. TXT x33908
f. TXT x33909
f. TXT x33910
f. TXT x33911
f. TXT x33912
f. TXT x33913
f. TXT x33914
f. TXT x33915
f. TXT x33916
f. TXT x33917
f. TXT x33918
f. TXT x33919
a. NS b0 0**
f. TXT x33921
f. TXT x33922
f. TXT x33923
f. TXT x33924
f. TXT x33925
f. TXT x33926
f. TXT x33927
f. TXT x33928
f. TXT x33929
f. TXT x33930
f. TXT x33931
f. TXT x33932
f. TXT x33933
f. TXT x33934
f. TXT x33935
f. TXT x33936
f. TXT x33937
f. TXT x33938
f. TXT x33939
f. TXT x33940
f. TXT x33941
f. TXT x33942
f. TXT x33943
f. TXT x33944
f. TXT x33945
f. TXT x33946
f. TXT x33947
f. TXT x33948
f. TXT x33949
f. TXT x33950
f. TXT x33951
f. TXT x33952
f. TXT x33953
f. TXT x33954
f. TXT x33955
f. TXT x33956
f. TXT x33957
f. TXT x33958
f. TXT x33959
f. TXT x33960
f. TXT x33961
f. TXT x33962
f. TXT x33963
f. TXT x33964
f. TXT x33965
f. TXT x33966
f. TXT x33967
f. TXT x33968
f. TXT x33969
f. TXT x33970
f. TXT x33971
f. TXT x33972
f. TXT x33973
f. TXT x33974
f. TXT x33975
f. TXT x33976
f. TXT x33977
f. TXT x33978
f. TXT x33979
f. TXT x33980
f. TXT x33981
f. TXT x33982
f. TXT x33983
@ TXT -b*y xac-
f. TXT x33985
f. TXT x33986
f. TXT x33987
f. TXT x33988
f. TXT x33989
f. TXT x33990
f. TXT x33991
f. TXT x33992
f. TXT x33993
f. TXT x33994
f. TXT x33995
f. TXT x33996
f. TXT x33997
f. TXT x33998
f. TXT x33999
f. TXT x34000
f. TXT x34001
f. TXT x34002
f. TXT x34003
f. TXT x34004
f. TXT x34005
f. TXT x34006
f. TXT x34007
f. TXT x34008
f. TXT x34009
f. TXT x34010
f. TXT x34011
f. TXT x34012
f. TXT x34013
f. TXT x34014
f. TXT x34015
f. TXT x34016
f. TXT x34017
f. TXT x34018
f. TXT x34019
f. TXT x34020
f. TXT x34021
f. TXT x34022
f. TXT x34023
f. TXT x34024
f. TXT x34025
f. TXT x34026
f. TXT x34027
f. TXT x34028
f. TXT x34029
f. TXT x34030
f. TXT x34031
f. TXT x34032
f. TXT x34033
f. TXT x34034
f. TXT x34035
f. TXT x34036
f. TXT x34037
f. TXT x34038
f. TXT x34039
f. TXT x34040
f. TXT x34041
f. TXT x34042
f. TXT x34043
f. TXT x34044
f. TXT x34045
f. TXT x34046
f. TXT x34047
@ NS z
f. TXT x34049
f. TXT x34050
f. TXT x34051
f. TXT x34052
f. TXT x34053
f. TXT x34054
f. TXT x34055
f. TXT x34056
f. TXT x34057
f. TXT x34058
f. TXT x34059
f. TXT x34060
f. TXT x34061
f. TXT x34062
f. TXT x34063
f. TXT x34064
f. TXT x34065
f. TXT x34066
f. TXT x34067
f. TXT x34068
f. TXT x34069
f. TXT x34070
f. TXT x34071
f. TXT x34072
f. TXT x34073
f. TXT x34074
f. TXT x34075
f. TXT x34076
f. TXT x34077
f. TXT x34078
f. TXT x34079
f. TXT x34080
f. TXT x34081
f. TXT x34082
f. TXT x34083
f. TXT x34084
f. TXT x34085
f. TXT x34086
f. TXT x34087
f. TXT x34088
f. TXT x34089
f. TXT x34090
f. TXT x34091
f. TXT x34092
f. TXT x34093
f. TXT x34094
f. TXT x34095
f. TXT x34096
f. TXT x34097
f. TXT x34098
f. TXT x34099
f. TXT x34100
f. TXT x34101
f. TXT x34102
f. TXT x34103
f. TXT x34104
f. TXT x34105
f. TXT x34106
f. TXT x34107
f. TXT x34108
f. TXT x34109
f. TXT x34110
f. TXT x34111
$ORIGIN ax.
f. TXT x34113
f. TXT x34114
f. TXT x34115
f. TXT x34116
f. TXT x34117
f. TXT x34118
f. TXT x34119
f. TXT x34120
f. TXT x34121
f. TXT x34122
f. TXT x34123
f. TXT x34124
f. TXT x34125
f. TXT x34126
f. TXT x34127
f. TXT x34128
f. TXT x34129
f. TXT x34130
f. TXT x34131
f. TXT x34132
f. TXT x34133
f. TXT x34134
f. TXT x34135
f. TXT x34136
f. TXT x34137
f. TXT x34138
f. TXT x34139
f. TXT x34140
f. TXT x34141
f. TXT x34142
f. TXT x34143
f. TXT x34144
f. TXT x34145
f. TXT x34146
f. TXT x34147
f. TXT x34148
f. TXT x34149
f. TXT x34150
f. TXT x34151
f. TXT x34152
f. TXT x34153
f. TXT x34154
f. TXT x34155
f. TXT x34156
f. TXT x34157
f. TXT x34158
f. TXT x34159
f. TXT x34160
f. TXT x34161
f. TXT x34162
f. TXT x34163
f. TXT x34164
f. TXT x34165
f. TXT x34166
f. TXT x34167
f. TXT x34168
f. TXT x34169
f. TXT x34170
f. TXT x34171
f. TXT x34172
f. TXT x34173
f. TXT x34174
f. TXT x34175

f. TXT x34177
f. TXT x34178
f. TXT x34179
f. TXT x34180
f. TXT x34181
f. TXT x34182
f. TXT x34183
f. TXT x34184
f. TXT x34185
f. TXT x34186
f. TXT x34187
f. TXT x34188
f. TXT x34189
f. TXT x34190
f. TXT x34191
f. TXT x34192
f. TXT x34193
f. TXT x34194
f. TXT x34195
f. TXT x34196
f. TXT x34197
f. TXT x34198
f. TXT x34199
f. TXT x34200
f. TXT x34201
f. TXT x34202
f. TXT x34203
f. TXT x34204
f. TXT x34205
f. TXT x34206
f. TXT x34207
f. TXT x34208
f. TXT x34209
f. TXT x34210
f. TXT x34211
f. TXT x34212
f. TXT x34213
f. TXT x34214
f. TXT x34215
f. TXT x34216
f. TXT x34217
f. TXT x34218
f. TXT x34219
f. TXT x34220
f. TXT x34221
f. TXT x34222
f. TXT x34223
f. TXT x34224
f. TXT x34225
f. TXT x34226
f. TXT x34227
f. TXT x34228
f. TXT x34229
f. TXT x34230
f. TXT x34231
f. TXT x34232
f. TXT x34233
f. TXT x34234
f. TXT x34235
f. TXT x34236
f. TXT x34237
f. TXT x34238
f. TXT x34239
 TXT * 0 b
f. TXT x34241
f. TXT x34242
f. TXT x34243
f. TXT x34244
f. TXT x34245
f. TXT x34246
f. TXT x34247
f. TXT x34248
f. TXT x34249
f. TXT x34250
f. TXT x34251
f. TXT x34252
f. TXT x34253
f. TXT x34254
f. TXT x34255
f. TXT x34256
f. TXT x34257
f. TXT x34258
f. TXT x34259
f. TXT x34260
f. TXT x34261
f. TXT x34262
f. TXT x34263
f. TXT x34264
f. TXT x34265
f. TXT x34266
f. TXT x34267
f. TXT x34268
f. TXT x34269
f. TXT x34270
f. TXT x34271
f. TXT x34272
f. TXT x34273
f. TXT x34274
f. TXT x34275
f. TXT x34276
f. TXT x34277
f. TXT x34278
f. TXT x34279
f. TXT x34280
f. TXT x34281
f. TXT x34282
f. TXT x34283
f. TXT x34284
f. TXT x34285
f. TXT x34286
f. TXT x34287
f. TXT x34288
f. TXT x34289
f. TXT x34290
f. TXT x34291
f. TXT x34292
f. TXT x34293
f. TXT x34294
f. TXT x34295
f. TXT x34296
f. TXT x34297
f. TXT x34298
f. TXT x34299
f. TXT x34300
f. TXT x34301
f. TXT x34302
f. TXT x34303

f. TXT x34305
f. TXT x34306
f. TXT x34307
f. TXT x34308
f. TXT x34309
f. TXT x34310
f. TXT x34311
f. TXT x34312
f. TXT x34313
f. TXT x34314
f. TXT x34315
f. TXT x34316
f. TXT x34317
f. TXT x34318
f. TXT x34319
f. TXT x34320
f. TXT x34321
f. TXT x34322
f. TXT x34323
f. TXT x34324
f. TXT x34325
f. TXT x34326
f. TXT x34327
f. TXT x34328
f. TXT x34329
f. TXT x34330
f. TXT x34331
f. TXT x34332
f. TXT x34333
f. TXT x34334
f. TXT x34335
f. TXT x34336
f. TXT x34337
f. TXT x34338
f. TXT x34339
f. TXT x34340
f. TXT x34341
f. TXT x34342
f. TXT x34343
f. TXT x34344
f. TXT x34345
f. TXT x34346
f. TXT x34347
f. TXT x34348
f. TXT x34349
f. TXT x34350
f. TXT x34351
f. TXT x34352
f. TXT x34353
f. TXT x34354
f. TXT x34355
f. TXT x34356
f. TXT x34357
f. TXT x34358
f. TXT x34359
f. TXT x34360
f. TXT x34361
f. TXT x34362
f. TXT x34363
f. TXT x34364
f. TXT x34365
f. TXT x34366
f. TXT x34367
$TTL 13885
f. TXT x34369
f. TXT x34370
f. TXT x34371
f. TXT x34372
f. TXT x34373
f. TXT x34374
f. TXT x34375
f. TXT x34376
f. TXT x34377
f. TXT x34378
f. TXT x34379
f. TXT x34380
f. TXT x34381
f. TXT x34382
f. TXT x34383
f. TXT x34384
f. TXT x34385
f. TXT x34386
f. TXT x34387
f. TXT x34388
f. TXT x34389
f. TXT x34390
f. TXT x34391
f. TXT x34392
f. TXT x34393
f. TXT x34394
f. TXT x34395
f. TXT x34396
f. TXT x34397
f. TXT x34398
f. TXT x34399
f. TXT x34400
f. TXT x34401
f. TXT x34402
f. TXT x34403
f. TXT x34404
f. TXT x34405
f. TXT x34406
f. TXT x34407
f. TXT x34408
f. TXT x34409
f. TXT x34410
f. TXT x34411
f. TXT x34412
f. TXT x34413
f. TXT x34414
f. TXT x34415
f. TXT x34416
f. TXT x34417
f. TXT x34418
f. TXT x34419
f. TXT x34420
f. TXT x34421
f. TXT x34422
f. TXT x34423
f. TXT x34424
f. TXT x34425
f. TXT x34426
f. TXT x34427
f. TXT x34428
f. TXT x34429
f. TXT x34430
f. TXT x34431

f. TXT x34433
f. TXT x34434
f. TXT x34435
f. TXT x34436
f. TXT x34437
f. TXT x34438
f. TXT x34439
f. TXT x34440
f. TXT x34441
f. TXT x34442
f. TXT x34443
f. TXT x34444
f. TXT x34445
f. TXT x34446
f. TXT x34447
f. TXT x34448
f. TXT x34449
f. TXT x34450
f. TXT x34451
f. TXT x34452
f. TXT x34453
f. TXT x34454
f. TXT x34455
f. TXT x34456
f. TXT x34457
f. TXT x34458
f. TXT x34459
f. TXT x34460
f. TXT x34461
f. TXT x34462
f. TXT x34463
f. TXT x34464
f. TXT x34465
f. TXT x34466
f. TXT x34467
f. TXT x34468
f. TXT x34469
f. TXT x34470
f. TXT x34471
f. TXT x34472
f. TXT x34473
f. TXT x34474
f. TXT x34475
f. TXT x34476
f. TXT x34477
f. TXT x34478
f. TXT x34479
f. TXT x34480
f. TXT x34481
f. TXT x34482
f. TXT x34483
f. TXT x34484
f. TXT x34485
f. TXT x34486
f. TXT x34487
f. TXT x34488
f. TXT x34489
f. TXT x34490
f. TXT x34491
f. TXT x34492
f. TXT x34493
f. TXT x34494
f. TXT x34495
0b TXT c -*yy
f. TXT x34497
f. TXT x34498
f. TXT x34499
f. TXT x34500
f. TXT x34501
f. TXT x34502
f. TXT x34503
f. TXT x34504
f. TXT x34505
f. TXT x34506
f. TXT x34507
f. TXT x34508
f. TXT x34509
f. TXT x34510
f. TXT x34511
f. TXT x34512
f. TXT x34513
f. TXT x34514
f. TXT x34515
f. TXT x34516
f. TXT x34517
f. TXT x34518
f. TXT x34519
f. TXT x34520
f. TXT x34521
f. TXT x34522
f. TXT x34523
f. TXT x34524
f. TXT x34525
f. TXT x34526
f. TXT x34527
f. TXT x34528
f. TXT x34529
f. TXT x34530
f. TXT x34531
f. TXT x34532
f. TXT x34533
f. TXT x34534
f. TXT x34535
f. TXT x34536
f. TXT x34537
f. TXT x34538
f. TXT x34539
f. TXT x34540
f. TXT x34541
f. TXT x34542
f. TXT x34543
f. TXT x34544
f. TXT x34545
f. TXT x34546
f. TXT x34547
f. TXT x34548
f. TXT x34549
f. TXT x34550
f. TXT x34551
f. TXT x34552
f. TXT x34553
f. TXT x34554
f. TXT x34555
f. TXT x34556
f. TXT x34557
f. TXT x34558
f. TXT x34559
@ NS *zb0
f. TXT x34561
f. TXT x34562
f. TXT x34563
f. TXT x34564
f. TXT x34565
f. TXT x34566
f. TXT x34567
f. TXT x34568
f. TXT x34569
f. TXT x34570
f. TXT x34571
f. TXT x34572
f. TXT x34573
f. TXT x34574
f. TXT x34575
f. TXT x34576
f. TXT x34577
f. TXT x34578
f. TXT x34579
f. TXT x34580
f. TXT x34581
f. TXT x34582
f. TXT x34583
f. TXT x34584
f. TXT x34585
f. TXT x34586
f. TXT x34587
f. TXT x34588
f. TXT x34589
f. TXT x34590
f. TXT x34591
f. TXT x34592
f. TXT x34593
f. TXT x34594
f. TXT x34595
f. TXT x34596
f. TXT x34597
f. TXT x34598
f. TXT x34599
f. TXT x34600
f. TXT x34601
f. TXT x34602
f. TXT x34603
f. TXT x34604
f. TXT x34605
f. TXT x34606
f. TXT x34607
f. TXT x34608
f. TXT x34609
f. TXT x34610
f. TXT x34611
f. TXT x34612
f. TXT x34613
f. TXT x34614
f. TXT x34615
f. TXT x34616
f. TXT x34617
f. TXT x34618
f. TXT x34619
f. TXT x34620
f. TXT x34621
f. TXT x34622
f. TXT x34623
zc. NS zzba *0a a0yz
f. TXT x34625
f. TXT x34626
f. TXT x34627
f. TXT x34628
f. TXT x34629
f. TXT x34630
f. TXT x34631
f. TXT x34632
f. TXT x34633
f. TXT x34634
f. TXT x34635
f. TXT x34636
f. TXT x34637
f. TXT x34638
f. TXT x34639
f. TXT x34640
f. TXT x34641
f. TXT x34642
f. TXT x34643
f. TXT x34644
f. TXT x34645
f. TXT x34646
f. TXT x34647
f. TXT x34648
f. TXT x34649
f. TXT x34650
f. TXT x34651
f. TXT x34652
f. TXT x34653
f. TXT x34654
f. TXT x34655
f. TXT x34656
f. TXT x34657
f. TXT x34658
f. TXT x34659
f. TXT x34660
f. TXT x34661
f. TXT x34662
f. TXT x34663
f. TXT x34664
f. TXT x34665
f. TXT x34666
f. TXT x34667
f. TXT x34668
f. TXT x34669
f. TXT x34670
f. TXT x34671
f. TXT x34672
f. TXT x34673
f. TXT x34674
f. TXT x34675
f. TXT x34676
f. TXT x34677
f. TXT x34678
f. TXT x34679
f. TXT x34680
f. TXT x34681
f. TXT x34682
f. TXT x34683
f. TXT x34684
f. TXT x34685
f. TXT x34686
f. TXT x34687
@ TXT x c
f. TXT x34689
f. TXT x34690
f. TXT x34691
f. TXT x34692
f. TXT x34693
f. TXT x34694
f. TXT x34695
f. TXT x34696
f. TXT x34697
f. TXT x34698
f. TXT x34699
f. TXT x34700
f. TXT x34701
f. TXT x34702
f. TXT x34703
f. TXT x34704
f. TXT x34705
f. TXT x34706
f. TXT x34707
f. TXT x34708
f. TXT x34709
f. TXT x34710
f. TXT x34711
f. TXT x34712
f. TXT x34713
f. TXT x34714
f. TXT x34715
f. TXT x34716
f. TXT x34717
f. TXT x34718
f. TXT x34719
f. TXT x34720
f. TXT x34721
f. TXT x34722
f. TXT x34723
f. TXT x34724
f. TXT x34725
f. TXT x34726
f. TXT x34727
f. TXT x34728
f. TXT x34729
f. TXT x34730
f. TXT x34731
f. TXT x34732
f. TXT x34733
f. TXT x34734
f. TXT x34735
f. TXT x34736
f. TXT x34737
f. TXT x34738
f. TXT x34739
f. TXT x34740
f. TXT x34741
f. TXT x34742
f. TXT x34743
f. TXT x34744
f. TXT x34745
f. TXT x34746
f. TXT x34747
f. TXT x34748
f. TXT x34749
f. TXT x34750
f. TXT x34751
c-z.x*. NS *cb
f. TXT x34753
f. TXT x34754
f. TXT x34755
f. TXT x34756
f. TXT x34757
f. TXT x34758
f. TXT x34759
f. TXT x34760
f. TXT x34761
f. TXT x34762
f. TXT x34763
f. TXT x34764
f. TXT x34765
f. TXT x34766
f. TXT x34767
f. TXT x34768
f. TXT x34769
f. TXT x34770
f. TXT x34771
f. TXT x34772
f. TXT x34773
f. TXT x34774
f. TXT x34775
f. TXT x34776
f. TXT x34777
f. TXT x34778
f. TXT x34779
f. TXT x34780
f. TXT x34781
f. TXT x34782
f. TXT x34783
f. TXT x34784
f. TXT x34785
f. TXT x34786
f. TXT x34787
f. TXT x34788
f. TXT x34789
f. TXT x34790
f. TXT x34791
f. TXT x34792
f. TXT x34793
f. TXT x34794
f. TXT x34795
f. TXT x34796
f. TXT x34797
f. TXT x34798
f. TXT x34799
f. TXT x34800
f. TXT x34801
f. TXT x34802
f. TXT x34803
f. TXT x34804
f. TXT x34805
f. TXT x34806
f. TXT x34807
f. TXT x34808
f. TXT x34809
f. TXT x34810
f. TXT x34811
f. TXT x34812
f. TXT x34813
f. TXT x34814
f. TXT x34815
; --y
f. TXT x34817
f. TXT x34818
f. TXT x34819
f. TXT x34820
f. TXT x34821
f. TXT x34822
f. TXT x34823
f. TXT x34824
f. TXT x34825
f. TXT x34826
f. TXT x34827
f. TXT x34828
f. TXT x34829
f. TXT x34830
f. TXT x34831
f. TXT x34832
f. TXT x34833
f. TXT x34834
f. TXT x34835
f. TXT x34836
f. TXT x34837
f. TXT x34838
f. TXT x34839
f. TXT x34840
f. TXT x34841
f. TXT x34842
f. TXT x34843
f. TXT x34844
f. TXT x34845
f. TXT x34846
f. TXT x34847
f. TXT x34848
f. TXT x34849
f. TXT x34850
f. TXT x34851
f. TXT x34852
f. TXT x34853
f. TXT x34854
f. TXT x34855
f. TXT x34856
f. TXT x34857
f. TXT x34858
f. TXT x34859
f. TXT x34860
f. TXT x34861
f. TXT x34862
f. TXT x34863
f. TXT x34864
f. TXT x34865
f. TXT x34866
f. TXT x34867
f. TXT x34868
f. TXT x34869
f. TXT x34870
f. TXT x34871
f. TXT x34872
f. TXT x34873
f. TXT x34874
f. TXT x34875
f. TXT x34876
f. TXT x34877
f. TXT x34878
f. TXT x34879
@ A b*0 vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
f. TXT x34881
f. TXT x34882
f. TXT x34883
f. TXT x34884
f. TXT x34885
f. TXT x34886
f. TXT x34887
f. TXT x34888
f. TXT x34889
f. TXT x34890
f. TXT x34891
f. TXT x34892
f. TXT x34893
f. TXT x34894
f. TXT x34895
f. TXT x34896
f. TXT x34897
f. TXT x34898
f. TXT x34899
f. TXT x34900
f. TXT x34901
f. TXT x34902
f. TXT x34903
f. TXT x34904
f. TXT x34905
f. TXT x34906
f. TXT x34907
f. TXT x34908
f. TXT x34909
f. TXT x34910
f. TXT x34911
f. TXT x34912
f. TXT x34913
f. TXT x34914
f. TXT x34915
f. TXT x34916
f. TXT x34917
f. TXT x34918
f. TXT x34919
f. TXT x34920
f. TXT x34921
f. TXT x34922
f. TXT x34923
f. TXT x34924
f. TXT x34925
f. TXT x34926
f. TXT x34927
f. TXT x34928
f. TXT x34929
f. TXT x34930
f. TXT x34931
f. TXT x34932
f. TXT x34933
f. TXT x34934
f. TXT x34935
f. TXT x34936
f. TXT x34937
f. TXT x34938
f. TXT x34939
f. TXT x34940
f. TXT x34941
f. TXT x34942
f. TXT x34943
; aya
f. TXT x34945
f. TXT x34946
f. TXT x34947
f. TXT x34948
f. TXT x34949
f. TXT x34950
f. TXT x34951
f. TXT x34952
f. TXT x34953
f. TXT x34954
f. TXT x34955
f. TXT x34956
f. TXT x34957
f. TXT x34958
f. TXT x34959
f. TXT x34960
f. TXT x34961
f. TXT x34962
f. TXT x34963
f. TXT x34964
f. TXT x34965
f. TXT x34966
f. TXT x34967
f. TXT x34968
f. TXT x34969
f. TXT x34970
f. TXT x34971
f. TXT x34972
f. TXT x34973
f. TXT x34974
f. TXT x34975
f. TXT x34976
f. TXT x34977
f. TXT x34978
f. TXT x34979
f. TXT x34980
f. TXT x34981
f. TXT x34982
f. TXT x34983
f. TXT x34984
f. TXT x34985
f. TXT x34986
f. TXT x34987
f. TXT x34988
f. TXT x34989
f. TXT x34990
f. TXT x34991
f. TXT x34992
f. TXT x34993
f. TXT x34994
f. TXT x34995
f. TXT x34996
f. TXT x34997
f. TXT x34998
f. TXT x34999
f. TXT x35000
f. TXT x35001
f. TXT x35002
f. TXT x35003
f. TXT x35004
f. TXT x35005
f. TXT x35006
f. TXT x35007
@ A a 0yy* y
f. TXT x35009
f. TXT x35010
f. TXT x35011
f. TXT x35012
f. TXT x35013
f. TXT x35014
f. TXT x35015
f. TXT x35016
f. TXT x35017
f. TXT x35018
f. TXT x35019
f. TXT x35020
f. TXT x35021
f. TXT x35022
f. TXT x35023
f. TXT x35024
f. TXT x35025
f. TXT x35026
f. TXT x35027
f. TXT x35028
f. TXT x35029
f. TXT x35030
f. TXT x35031
f. TXT x35032
f. TXT x35033
f. TXT x35034
f. TXT x35035
f. TXT x35036
f. TXT x35037
f. TXT x35038
f. TXT x35039
f. TXT x35040
f. TXT x35041
f. TXT x35042
f. TXT x35043
f. TXT x35044
f. TXT x35045
f. TXT x35046
f. TXT x35047
f. TXT x35048
f. TXT x35049
f. TXT x35050
f. TXT x35051
f. TXT x35052
f. TXT x35053
f. TXT x35054
f. TXT x35055
f. TXT x35056
f. TXT x35057
f. TXT x35058
f. TXT x35059
f. TXT x35060
f. TXT x35061
f. TXT x35062
f. TXT x35063
f. TXT x35064
f. TXT x35065
f. TXT x35066
f. TXT x35067
f. TXT x35068
f. TXT x35069
f. TXT x35070
f. TXT x35071
$ORIGIN cy00.z.
f. TXT x35073
f. TXT x35074
f. TXT x35075
f. TXT x35076
f. TXT x35077
f. TXT x35078
f. TXT x35079
f. TXT x35080
f. TXT x35081
f. TXT x35082
f. TXT x35083
f. TXT x35084
f. TXT x35085
f. TXT x35086
f. TXT x35087
f. TXT x35088
f. TXT x35089
f. TXT x35090
f. TXT x35091
f. TXT x35092
f. TXT x35093
f. TXT x35094
f. TXT x35095
f. TXT x35096
f. TXT x35097
f. TXT x35098
f. TXT x35099
f. TXT x35100
f. TXT x35101
f. TXT x35102
f. TXT x35103
f. TXT x35104
f. TXT x35105
f. TXT x35106
f. TXT x35107
f. TXT x35108
f. TXT x35109
f. TXT x35110
f. TXT x35111
f. TXT x35112
f. TXT x35113
f. TXT x35114
f. TXT x35115
f. TXT x35116
f. TXT x35117
f. TXT x35118
f. TXT x35119
f. TXT x35120
f. TXT x35121
f. TXT x35122
f. TXT x35123
f. TXT x35124
f. TXT x35125
f. TXT x35126
f. TXT x35127
f. TXT x35128
f. TXT x35129
f. TXT x35130
f. TXT x35131
f. TXT x35132
f. TXT x35133
f. TXT x35134
f. TXT x35135

f. TXT x35137
f. TXT x35138
f. TXT x35139
f. TXT x35140
f. TXT x35141
f. TXT x35142
f. TXT x35143
f. TXT x35144
f. TXT x35145
f. TXT x35146
f. TXT x35147
f. TXT x35148
f. TXT x35149
f. TXT x35150
f. TXT x35151
f. TXT x35152
f. TXT x35153
f. TXT x35154
f. TXT x35155
f. TXT x35156
f. TXT x35157
f. TXT x35158
f. TXT x35159
f. TXT x35160
f. TXT x35161
f. TXT x35162
f. TXT x35163
f. TXT x35164
f. TXT x35165
f. TXT x35166
f. TXT x35167
f. TXT x35168
f. TXT x35169
f. TXT x35170
f. TXT x35171
f. TXT x35172
f. TXT x35173
f. TXT x35174
f. TXT x35175
f. TXT x35176
f. TXT x35177
f. TXT x35178
f. TXT x35179
f. TXT x35180
f. TXT x35181
f. TXT x35182
f. TXT x35183
f. TXT x35184
f. TXT x35185
f. TXT x35186
f. TXT x35187
f. TXT x35188
f. TXT x35189
f. TXT x35190
f. TXT x35191
f. TXT x35192
f. TXT x35193
f. TXT x35194
f. TXT x35195
f. TXT x35196
f. TXT x35197
f. TXT x35198
f. TXT x35199
$ORIGIN -.ayy.
f. TXT x35201
f. TXT x35202
f. TXT x35203
f. TXT x35204
f. TXT x35205
f. TXT x35206
f. TXT x35207
f. TXT x35208
f. TXT x35209
f. TXT x35210
f. TXT x35211
f. TXT x35212
f. TXT x35213
f. TXT x35214
f. TXT x35215
f. TXT x35216
f. TXT x35217
f. TXT x35218
f. TXT x35219
f. TXT x35220
f. TXT x35221
f. TXT x35222
f. TXT x35223
f. TXT x35224
f. TXT x35225
f. TXT x35226
f. TXT x35227
f. TXT x35228
f. TXT x35229
f. TXT x35230
f. TXT x35231
f. TXT x35232
f. TXT x35233
f. TXT x35234
f. TXT x35235
f. TXT x35236
f. TXT x35237
f. TXT x35238
f. TXT x35239
f. TXT x35240
f. TXT x35241
f. TXT x35242
f. TXT x35243
f. TXT x35244
f. TXT x35245
f. TXT x35246
f. TXT x35247
f. TXT x35248
f. TXT x35249
f. TXT x35250
f. TXT x35251
f. TXT x35252
f. TXT x35253
f. TXT x35254
f. TXT x35255
f. TXT x35256
f. TXT x35257
f. TXT x35258
f. TXT x35259
f. TXT x35260
f. TXT x35261
f. TXT x35262
f. TXT x35263
yxx- NS *z zby
f. TXT x35265
f. TXT x35266
f. TXT x35267
f. TXT x35268
f. TXT x35269
f. TXT x35270
f. TXT x35271
f. TXT x35272
f. TXT x35273
f. TXT x35274
f. TXT x35275
f. TXT x35276
f. TXT x35277
f. TXT x35278
f. TXT x35279
f. TXT x35280
f. TXT x35281
f. TXT x35282
f. TXT x35283
f. TXT x35284
f. TXT x35285
f. TXT x35286
f. TXT x35287
f. TXT x35288
f. TXT x35289
f. TXT x35290
f. TXT x35291
f. TXT x35292
f. TXT x35293
f. TXT x35294
f. TXT x35295
f. TXT x35296
f. TXT x35297
f. TXT x35298
f. TXT x35299
f. TXT x35300
f. TXT x35301
f. TXT x35302
f. TXT x35303
f. TXT x35304
f. TXT x35305
f. TXT x35306
f. TXT x35307
f. TXT x35308
f. TXT x35309
f. TXT x35310
f. TXT x35311
f. TXT x35312
f. TXT x35313
f. TXT x35314
f. TXT x35315
f. TXT x35316
f. TXT x35317
f. TXT x35318
f. TXT x35319
f. TXT x35320
f. TXT x35321
f. TXT x35322
f. TXT x35323
f. TXT x35324
f. TXT x35325
f. TXT x35326
f. TXT x35327
b TXT 0ccx
f. TXT x35329
f. TXT x35330
f. TXT x35331
f. TXT x35332
f. TXT x35333
f. TXT x35334
f. TXT x35335
f. TXT x35336
f. TXT x35337
f. TXT x35338
f. TXT x35339
f. TXT x35340
f. TXT x35341
f. TXT x35342
f. TXT x35343
f. TXT x35344
f. TXT x35345
f. TXT x35346
f. TXT x35347
f. TXT x35348
f. TXT x35349
f. TXT x35350
f. TXT x35351
f. TXT x35352
f. TXT x35353
f. TXT x35354
f. TXT x35355
f. TXT x35356
f. TXT x35357
f. TXT x35358
f. TXT x35359
f. TXT x35360
f. TXT x35361
f. TXT x35362
f. TXT x35363
f. TXT x35364
f. TXT x35365
f. TXT x35366
f. TXT x35367
f. TXT x35368
f. TXT x35369
f. TXT x35370
f. TXT x35371
f. TXT x35372
f. TXT x35373
f. TXT x35374
f. TXT x35375
f. TXT x35376
f. TXT x35377
f. TXT x35378
f. TXT x35379
f. TXT x35380
f. TXT x35381
f. TXT x35382
f. TXT x35383
f. TXT x35384
f. TXT x35385
f. TXT x35386
f. TXT x35387
f. TXT x35388
f. TXT x35389
f. TXT x35390
f. TXT x35391
 NS 0xy- ** y-
f. TXT x35393
f. TXT x35394
f. TXT x35395
f. TXT x35396
f. TXT x35397
f. TXT x35398
f. TXT x35399
f. TXT x35400
f. TXT x35401
f. TXT x35402
f. TXT x35403
f. TXT x35404
f. TXT x35405
f. TXT x35406
f. TXT x35407
f. TXT x35408
f. TXT x35409
f. TXT x35410
f. TXT x35411
f. TXT x35412
f. TXT x35413
f. TXT x35414
f. TXT x35415
f. TXT x35416
f. TXT x35417
f. TXT x35418
f. TXT x35419
f. TXT x35420
f. TXT x35421
f. TXT x35422
f. TXT x35423
f. TXT x35424
f. TXT x35425
f. TXT x35426
f. TXT x35427
f. TXT x35428
f. TXT x35429
f. TXT x35430
f. TXT x35431
f. TXT x35432
f. TXT x35433
f. TXT x35434
f. TXT x35435
f. TXT x35436
f. TXT x35437
f. TXT x35438
f. TXT x35439
f. TXT x35440
f. TXT x35441
f. TXT x35442
f. TXT x35443
f. TXT x35444
f. TXT x35445
f. TXT x35446
f. TXT x35447
f. TXT x35448
f. TXT x35449
f. TXT x35450
f. TXT x35451
f. TXT x35452
f. TXT x35453
f. TXT x35454
f. TXT x35455

f. TXT x35457
f. TXT x35458
f. TXT x35459
f. TXT x35460
f. TXT x35461
f. TXT x35462
f. TXT x35463
f. TXT x35464
f. TXT x35465
f. TXT x35466
f. TXT x35467
f. TXT x35468
f. TXT x35469
f. TXT x35470
f. TXT x35471
f. TXT x35472
f. TXT x35473
f. TXT x35474
f. TXT x35475
f. TXT x35476
f. TXT x35477
f. TXT x35478
f. TXT x35479
f. TXT x35480
f. TXT x35481
f. TXT x35482
f. TXT x35483
f. TXT x35484
f. TXT x35485
f. TXT x35486
f. TXT x35487
f. TXT x35488
f. TXT x35489
f. TXT x35490
f. TXT x35491
f. TXT x35492
f. TXT x35493
f. TXT x35494
f. TXT x35495
f. TXT x35496
f. TXT x35497
f. TXT x35498
f. TXT x35499
f. TXT x35500
f. TXT x35501
f. TXT x35502
f. TXT x35503
f. TXT x35504
f. TXT x35505
f. TXT x35506
f. TXT x35507
f. TXT x35508
f. TXT x35509
f. TXT x35510
f. TXT x35511
f. TXT x35512
f. TXT x35513
f. TXT x35514
f. TXT x35515
f. TXT x35516
f. TXT x35517
f. TXT x35518
f. TXT x35519
@ NS aa z-c c**-
f. TXT x35521
f. TXT x35522
f. TXT x35523
f. TXT x35524
f. TXT x35525
f. TXT x35526
f. TXT x35527
f. TXT x35528
f. TXT x35529
f. TXT x35530
f. TXT x35531
f. TXT x35532
f. TXT x35533
f. TXT x35534
f. TXT x35535
f. TXT x35536
f. TXT x35537
f. TXT x35538
f. TXT x35539
f. TXT x35540
f. TXT x35541
f. TXT x35542
f. TXT x35543
f. TXT x35544
f. TXT x35545
f. TXT x35546
f. TXT x35547
f. TXT x35548
f. TXT x35549
f. TXT x35550
f. TXT x35551
f. TXT x35552
f. TXT x35553
f. TXT x35554
f. TXT x35555
f. TXT x35556
f. TXT x35557
f. TXT x35558
f. TXT x35559
f. TXT x35560
f. TXT x35561
f. TXT x35562
f. TXT x35563
f. TXT x35564
f. TXT x35565
f. TXT x35566
f. TXT x35567
f. TXT x35568
f. TXT x35569
f. TXT x35570
f. TXT x35571
f. TXT x35572
f. TXT x35573
f. TXT x35574
f. TXT x35575
f. TXT x35576
f. TXT x35577
f. TXT x35578
f. TXT x35579
f. TXT x35580
f. TXT x35581
f. TXT x35582
f. TXT x35583

f. TXT x35585
f. TXT x35586
f. TXT x35587
f. TXT x35588
f. TXT x35589
f. TXT x35590
f. TXT x35591
f. TXT x35592
f. TXT x35593
f. TXT x35594
f. TXT x35595
f. TXT x35596
f. TXT x35597
f. TXT x35598
f. TXT x35599
f. TXT x35600
f. TXT x35601
f. TXT x35602
f. TXT x35603
f. TXT x35604
f. TXT x35605
f. TXT x35606
f. TXT x35607
f. TXT x35608
f. TXT x35609
f. TXT x35610
f. TXT x35611
f. TXT x35612
f. TXT x35613
f. TXT x35614
f. TXT x35615
f. TXT x35616
f. TXT x35617
f. TXT x35618
f. TXT x35619
f. TXT x35620
f. TXT x35621
f. TXT x35622
f. TXT x35623
f. TXT x35624
f. TXT x35625
f. TXT x35626
f. TXT x35627
f. TXT x35628
f. TXT x35629
f. TXT x35630
f. TXT x35631
f. TXT x35632
f. TXT x35633
f. TXT x35634
f. TXT x35635
f. TXT x35636
f. TXT x35637
f. TXT x35638
f. TXT x35639
f. TXT x35640
f. TXT x35641
f. TXT x35642
f. TXT x35643
f. TXT x35644
f. TXT x35645
f. TXT x35646
f. TXT x35647
$ORIGIN y.
f. TXT x35649
f. TXT x35650
f. TXT x35651
f. TXT x35652
f. TXT x35653
f. TXT x35654
f. TXT x35655
f. TXT x35656
f. TXT x35657
f. TXT x35658
f. TXT x35659
f. TXT x35660
f. TXT x35661
f. TXT x35662
f. TXT x35663
f. TXT x35664
f. TXT x35665
f. TXT x35666
f. TXT x35667
f. TXT x35668
f. TXT x35669
f. TXT x35670
f. TXT x35671
f. TXT x35672
f. TXT x35673
f. TXT x35674
f. TXT x35675
f. TXT x35676
f. TXT x35677
f. TXT x35678
f. TXT x35679
f. TXT x35680
f. TXT x35681
f. TXT x35682
f. TXT x35683
f. TXT x35684
f. TXT x35685
f. TXT x35686
f. TXT x35687
f. TXT x35688
f. TXT x35689
f. TXT x35690
f. TXT x35691
f. TXT x35692
f. TXT x35693
f. TXT x35694
f. TXT x35695
f. TXT x35696
f. TXT x35697
f. TXT x35698
f. TXT x35699
f. TXT x35700
f. TXT x35701
f. TXT x35702
f. TXT x35703
f. TXT x35704
f. TXT x35705
f. TXT x35706
f. TXT x35707
f. TXT x35708
f. TXT x35709
f. TXT x35710
f. TXT x35711
b. NS y zy0-
f. TXT x35713
f. TXT x35714
f. TXT x35715
f. TXT x35716
f. TXT x35717
f. TXT x35718
f. TXT x35719
f. TXT x35720
f. TXT x35721
f. TXT x35722
f. TXT x35723
f. TXT x35724
f. TXT x35725
f. TXT x35726
f. TXT x35727
f. TXT x35728
f. TXT x35729
f. TXT x35730
f. TXT x35731
f. TXT x35732
f. TXT x35733
f. TXT x35734
f. TXT x35735
f. TXT x35736
f. TXT x35737
f. TXT x35738
f. TXT x35739
f. TXT x35740
f. TXT x35741
f. TXT x35742
f. TXT x35743
f. TXT x35744
f. TXT x35745
f. TXT x35746
f. TXT x35747
f. TXT x35748
f. TXT x35749
f. TXT x35750
f. TXT x35751
f. TXT x35752
f. TXT x35753
f. TXT x35754
f. TXT x35755
f. TXT x35756
f. TXT x35757
f. TXT x35758
f. TXT x35759
f. TXT x35760
f. TXT x35761
f. TXT x35762
f. TXT x35763
f. TXT x35764
f. TXT x35765
f. TXT x35766
f. TXT x35767
f. TXT x35768
f. TXT x35769
f. TXT x35770
f. TXT x35771
f. TXT x35772
f. TXT x35773
f. TXT x35774
f. TXT x35775
-x A bcb yxc xxa
f. TXT x35777
f. TXT x35778
f. TXT x35779
f. TXT x35780
f. TXT x35781
f. TXT x35782
f. TXT x35783
f. TXT x35784
f. TXT x35785
f. TXT x35786
f. TXT x35787
f. TXT x35788
f. TXT x35789
f. TXT x35790
f. TXT x35791
f. TXT x35792
f. TXT x35793
f. TXT x35794
f. TXT x35795
f. TXT x35796
f. TXT x35797
f. TXT x35798
f. TXT x35799
f. TXT x35800
f. TXT x35801
f. TXT x35802
f. TXT x35803
f. TXT x35804
f. TXT x35805
f. TXT x35806
f. TXT x35807
f. TXT x35808
f. TXT x35809
f. TXT x35810
f. TXT x35811
f. TXT x35812
f. TXT x35813
f. TXT x35814
f. TXT x35815
f. TXT x35816
f. TXT x35817
f. TXT x35818
f. TXT x35819
f. TXT x35820
f. TXT x35821
f. TXT x35822
f. TXT x35823
f. TXT x35824
f. TXT x35825
f. TXT x35826
f. TXT x35827
f. TXT x35828
f. TXT x35829
f. TXT x35830
f. TXT x35831
f. TXT x35832
f. TXT x35833
f. TXT x35834
f. TXT x35835
f. TXT x35836
f. TXT x35837
f. TXT x35838
f. TXT x35839
@ NS z*z
f. TXT x35841
f. TXT x35842
f. TXT x35843
f. TXT x35844
f. TXT x35845
f. TXT x35846
f. TXT x35847
f. TXT x35848
f. TXT x35849
f. TXT x35850
f. TXT x35851
f. TXT x35852
f. TXT x35853
f. TXT x35854
f. TXT x35855
f. TXT x35856
f. TXT x35857
f. TXT x35858
f. TXT x35859
f. TXT x35860
f. TXT x35861
f. TXT x35862
f. TXT x35863
f. TXT x35864
f. TXT x35865
f. TXT x35866
f. TXT x35867
f. TXT x35868
f. TXT x35869
f. TXT x35870
f. TXT x35871
f. TXT x35872
f. TXT x35873
f. TXT x35874
f. TXT x35875
f. TXT x35876
f. TXT x35877
f. TXT x35878
f. TXT x35879
f. TXT x35880
f. TXT x35881
f. TXT x35882
f. TXT x35883
f. TXT x35884
f. TXT x35885
f. TXT x35886
f. TXT x35887
f. TXT x35888
f. TXT x35889
f. TXT x35890
f. TXT x35891
f. TXT x35892
f. TXT x35893
f. TXT x35894
f. TXT x35895
f. TXT x35896
f. TXT x35897
f. TXT x35898
f. TXT x35899
f. TXT x35900
f. TXT x35901
f. TXT x35902
f. TXT x35903
y-z A aax byza xyxx
f. TXT x35905
f. TXT x35906
f. TXT x35907
f. TXT x35908
f. TXT x35909
f. TXT x35910
f. TXT x35911
f. TXT x35912
f. TXT x35913
f. TXT x35914
f. TXT x35915
f. TXT x35916
f. TXT x35917
f. TXT x35918
f. TXT x35919
f. TXT x35920
f. TXT x35921
f. TXT x35922
f. TXT x35923
f. TXT x35924
f. TXT x35925
f. TXT x35926
f. TXT x35927
f. TXT x35928
f. TXT x35929
f. TXT x35930
f. TXT x35931
f. TXT x35932
f. TXT x35933
f. TXT x35934
f. TXT x35935
f. TXT x35936
f. TXT x35937
f. TXT x35938
f. TXT x35939
f. TXT x35940
f. TXT x35941
f. TXT x35942
f. TXT x35943
f. TXT x35944
f. TXT x35945
f. TXT x35946
f. TXT x35947
f. TXT x35948
f. TXT x35949
f. TXT x35950
f. TXT x35951
f. TXT x35952
f. TXT x35953
f. TXT x35954
f. TXT x35955
f. TXT x35956
f. TXT x35957
f. TXT x35958
f. TXT x35959
f. TXT x35960
f. TXT x35961
f. TXT x35962
f. TXT x35963
f. TXT x35964
f. TXT x35965
f. TXT x35966
f. TXT x35967
 NS vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv a b
f. TXT x35969
f. TXT x35970
f. TXT x35971
f. TXT x35972
f. TXT x35973
f. TXT x35974
f. TXT x35975
f. TXT x35976
f. TXT x35977
f. TXT x35978
f. TXT x35979
f. TXT x35980
f. TXT x35981
f. TXT x35982
f. TXT x35983
f. TXT x35984
f. TXT x35985
f. TXT x35986
f. TXT x35987
f. TXT x35988
f. TXT x35989
f. TXT x35990
f. TXT x35991
f. TXT x35992
f. TXT x35993
f. TXT x35994
f. TXT x35995
f. TXT x35996
f. TXT x35997
f. TXT x35998
f. TXT x35999
f. TXT x36000
f. TXT x36001
f. TXT x36002
f. TXT x36003
f. TXT x36004
f. TXT x36005
f. TXT x36006
f. TXT x36007
f. TXT x36008
f. TXT x36009
f. TXT x36010
f. TXT x36011
f. TXT x36012
f. TXT x36013
f. TXT x36014
f. TXT x36015
f. TXT x36016
f. TXT x36017
f. TXT x36018
f. TXT x36019
f. TXT x36020
f. TXT x36021
f. TXT x36022
f. TXT x36023
f. TXT x36024
f. TXT x36025
f. TXT x36026
f. TXT x36027
f. TXT x36028
f. TXT x36029
f. TXT x36030
f. TXT x36031
; bx0
f. TXT x36033
f. TXT x36034
f. TXT x36035
f. TXT x36036
f. TXT x36037
f. TXT x36038
f. TXT x36039
f. TXT x36040
f. TXT x36041
f. TXT x36042
f. TXT x36043
f. TXT x36044
f. TXT x36045
f. TXT x36046
f. TXT x36047
f. TXT x36048
f. TXT x36049
f. TXT x36050
f. TXT x36051
f. TXT x36052
f. TXT x36053
f. TXT x36054
f. TXT x36055
f. TXT x36056
f. TXT x36057
f. TXT x36058
f. TXT x36059
f. TXT x36060
f. TXT x36061
f. TXT x36062
f. TXT x36063
f. TXT x36064
f. TXT x36065
f. TXT x36066
f. TXT x36067
f. TXT x36068
f. TXT x36069
f. TXT x36070
f. TXT x36071
f. TXT x36072
f. TXT x36073
f. TXT x36074
f. TXT x36075
f. TXT x36076
f. TXT x36077
f. TXT x36078
f. TXT x36079
f. TXT x36080
f. TXT x36081
f. TXT x36082
f. TXT x36083
f. TXT x36084
f. TXT x36085
f. TXT x36086
f. TXT x36087
f. TXT x36088
f. TXT x36089
f. TXT x36090
f. TXT x36091
f. TXT x36092
f. TXT x36093
f. TXT x36094
f. TXT x36095
c-0. TXT *bcx c
f. TXT x36097
f. TXT x36098
f. TXT x36099
f. TXT x36100
f. TXT x36101
f. TXT x36102
f. TXT x36103
f. TXT x36104
f. TXT x36105
f. TXT x36106
f. TXT x36107
f. TXT x36108
f. TXT x36109
f. TXT x36110
f. TXT x36111
f. TXT x36112
f. TXT x36113
f. TXT x36114
f. TXT x36115
f. TXT x36116
f. TXT x36117
f. TXT x36118
f. TXT x36119
f. TXT x36120
f. TXT x36121
f. TXT x36122
f. TXT x36123
f. TXT x36124
f. TXT x36125
f. TXT x36126
f. TXT x36127
f. TXT x36128
f. TXT x36129
f. TXT x36130
f. TXT x36131
f. TXT x36132
f. TXT x36133
f. TXT x36134
f. TXT x36135
f. TXT x36136
f. TXT x36137
f. TXT x36138
f. TXT x36139
f. TXT x36140
f. TXT x36141
f. TXT x36142
f. TXT x36143
f. TXT x36144
f. TXT x36145
f. TXT x36146
f. TXT x36147
f. TXT x36148
f. TXT x36149
f. TXT x36150
f. TXT x36151
f. TXT x36152
f. TXT x36153
f. TXT x36154
f. TXT x36155
f. TXT x36156
f. TXT x36157
f. TXT x36158
f. TXT x36159
$TTL 0
f. TXT x36161
f. TXT x36162
f. TXT x36163
f. TXT x36164
f. TXT x36165
f. TXT x36166
f. TXT x36167
f. TXT x36168
f. TXT x36169
f. TXT x36170
f. TXT x36171
f. TXT x36172
f. TXT x36173
f. TXT x36174
f. TXT x36175
f. TXT x36176
f. TXT x36177
f. TXT x36178
f. TXT x36179
f. TXT x36180
f. TXT x36181
f. TXT x36182
f. TXT x36183
f. TXT x36184
f. TXT x36185
f. TXT x36186
f. TXT x36187
f. TXT x36188
f. TXT x36189
f. TXT x36190
f. TXT x36191
f. TXT x36192
f. TXT x36193
f. TXT x36194
f. TXT x36195
f. TXT x36196
f. TXT x36197
f. TXT x36198
f. TXT x36199
f. TXT x36200
f. TXT x36201
f. TXT x36202
f. TXT x36203
f. TXT x36204
f. TXT x36205
f. TXT x36206
f. TXT x36207
f. TXT x36208
f. TXT x36209
f. TXT x36210
f. TXT x36211
f. TXT x36212
f. TXT x36213
f. TXT x36214
f. TXT x36215
f. TXT x36216
f. TXT x36217
f. TXT x36218
f. TXT x36219
f. TXT x36220
f. TXT x36221
f. TXT x36222
f. TXT x36223
zxac TXT *cx
f. TXT x36225
f. TXT x36226
f. TXT x36227
f. TXT x36228
f. TXT x36229
f. TXT x36230
f. TXT x36231
f. TXT x36232
f. TXT x36233
f. TXT x36234
f. TXT x36235
f. TXT x36236
f. TXT x36237
f. TXT x36238
f. TXT x36239
f. TXT x36240
f. TXT x36241
f. TXT x36242
f. TXT x36243
f. TXT x36244
f. TXT x36245
f. TXT x36246
f. TXT x36247
f. TXT x36248
f. TXT x36249
f. TXT x36250
f. TXT x36251
f. TXT x36252
f. TXT x36253
f. TXT x36254
f. TXT x36255
f. TXT x36256
f. TXT x36257
f. TXT x36258
f. TXT x36259
f. TXT x36260
f. TXT x36261
f. TXT x36262
f. TXT x36263
f. TXT x36264
f. TXT x36265
f. TXT x36266
f. TXT x36267
f. TXT x36268
f. TXT x36269
f. TXT x36270
f. TXT x36271
f. TXT x36272
f. TXT x36273
f. TXT x36274
f. TXT x36275
f. TXT x36276
f. TXT x36277
f. TXT x36278
f. TXT x36279
f. TXT x36280
f. TXT x36281
f. TXT x36282
f. TXT x36283
f. TXT x36284
f. TXT x36285
f. TXT x36286
f. TXT x36287
cyy. NS x0yx yyay c-
f. TXT x36289
f. TXT x36290
f. TXT x36291
f. TXT x36292
f. TXT x36293
f. TXT x36294
f. TXT x36295
f. TXT x36296
f. TXT x36297
f. TXT x36298
f. TXT x36299
f. TXT x36300
f. TXT x36301
f. TXT x36302
f. TXT x36303
f. TXT x36304
f. TXT x36305
f. TXT x36306
f. TXT x36307
f. TXT x36308
f. TXT x36309
f. TXT x36310
f. TXT x36311
f. TXT x36312
f. TXT x36313
f. TXT x36314
f. TXT x36315
f. TXT x36316
f. TXT x36317
f. TXT x36318
f. TXT x36319
f. TXT x36320
f. TXT x36321
f. TXT x36322
f. TXT x36323
f. TXT x36324
f. TXT x36325
f. TXT x36326
f. TXT x36327
f. TXT x36328
f. TXT x36329
f. TXT x36330
f. TXT x36331
f. TXT x36332
f. TXT x36333
f. TXT x36334
f. TXT x36335
f. TXT x36336
f. TXT x36337
f. TXT x36338
f. TXT x36339
f. TXT x36340
f. TXT x36341
f. TXT x36342
f. TXT x36343
f. TXT x36344
f. TXT x36345
f. TXT x36346
f. TXT x36347
f. TXT x36348
f. TXT x36349
f. TXT x36350
f. TXT x36351
@ A -
f. TXT x36353
f. TXT x36354
f. TXT x36355
f. TXT x36356
f. TXT x36357
f. TXT x36358
f. TXT x36359
f. TXT x36360
f. TXT x36361
f. TXT x36362
f. TXT x36363
f. TXT x36364
f. TXT x36365
f. TXT x36366
f. TXT x36367
f. TXT x36368
f. TXT x36369
f. TXT x36370
f. TXT x36371
f. TXT x36372
f. TXT x36373
f. TXT x36374
f. TXT x36375
f. TXT x36376
f. TXT x36377
f. TXT x36378
f. TXT x36379
f. TXT x36380
f. TXT x36381
f. TXT x36382
f. TXT x36383
f. TXT x36384
f. TXT x36385
f. TXT x36386
f. TXT x36387
f. TXT x36388
f. TXT x36389
f. TXT x36390
f. TXT x36391
f. TXT x36392
f. TXT x36393
f. TXT x36394
f. TXT x36395
f. TXT x36396
f. TXT x36397
f. TXT x36398
f. TXT x36399
f. TXT x36400
f. TXT x36401
f. TXT x36402
f. TXT x36403
f. TXT x36404
f. TXT x36405
f. TXT x36406
f. TXT x36407
f. TXT x36408
f. TXT x36409
f. TXT x36410
f. TXT x36411
f. TXT x36412
f. TXT x36413
f. TXT x36414
f. TXT x36415
$ORIGIN *0.c.
f. TXT x36417
f. TXT x36418
f. TXT x36419
f. TXT x36420
f. TXT x36421
f. TXT x36422
f. TXT x36423
f. TXT x36424
f. TXT x36425
f. TXT x36426
f. TXT x36427
f. TXT x36428
f. TXT x36429
f. TXT x36430
f. TXT x36431
f. TXT x36432
f. TXT x36433
f. TXT x36434
f. TXT x36435
f. TXT x36436
f. TXT x36437
f. TXT x36438
f. TXT x36439
f. TXT x36440
f. TXT x36441
f. TXT x36442
f. TXT x36443
f. TXT x36444
f. TXT x36445
f. TXT x36446
f. TXT x36447
f. TXT x36448
f. TXT x36449
f. TXT x36450
f. TXT x36451
f. TXT x36452
f. TXT x36453
f. TXT x36454
f. TXT x36455
f. TXT x36456
f. TXT x36457
f. TXT x36458
f. TXT x36459
f. TXT x36460
f. TXT x36461
f. TXT x36462
f. TXT x36463
f. TXT x36464
f. TXT x36465
f. TXT x36466
f. TXT x36467
f. TXT x36468
f. TXT x36469
f. TXT x36470
f. TXT x36471
f. TXT x36472
f. TXT x36473
f. TXT x36474
f. TXT x36475
f. TXT x36476
f. TXT x36477
f. TXT x36478
f. TXT x36479
ccz0.y-ya. A a0y
f. TXT x36481
f. TXT x36482
f. TXT x36483
f. TXT x36484
f. TXT x36485
f. TXT x36486
f. TXT x36487
f. TXT x36488
f. TXT x36489
f. TXT x36490
f. TXT x36491
f. TXT x36492
f. TXT x36493
f. TXT x36494
f. TXT x36495
f. TXT x36496
f. TXT x36497
f. TXT x36498
f. TXT x36499
f. TXT x36500
f. TXT x36501
f. TXT x36502
f. TXT x36503
f. TXT x36504
f. TXT x36505
f. TXT x36506
f. TXT x36507
f. TXT x36508
f. TXT x36509
f. TXT x36510
f. TXT x36511
f. TXT x36512
f. TXT x36513
f. TXT x36514
f. TXT x36515
f. TXT x36516
f. TXT x36517
f. TXT x36518
f. TXT x36519
f. TXT x36520
f. TXT x36521
f. TXT x36522
f. TXT x36523
f. TXT x36524
f. TXT x36525
f. TXT x36526
f. TXT x36527
f. TXT x36528
f. TXT x36529
f. TXT x36530
f. TXT x36531
f. TXT x36532
f. TXT x36533
f. TXT x36534
f. TXT x36535
f. TXT x36536
f. TXT x36537
f. TXT x36538
f. TXT x36539
f. TXT x36540
f. TXT x36541
f. TXT x36542
f. TXT x36543
- A -
f. TXT x36545
f. TXT x36546
f. TXT x36547
f. TXT x36548
f. TXT x36549
f. TXT x36550
f. TXT x36551
f. TXT x36552
f. TXT x36553
f. TXT x36554
f. TXT x36555
f. TXT x36556
f. TXT x36557
f. TXT x36558
f. TXT x36559
f. TXT x36560
f. TXT x36561
f. TXT x36562
f. TXT x36563
f. TXT x36564
f. TXT x36565
f. TXT x36566
f. TXT x36567
f. TXT x36568
f. TXT x36569
f. TXT x36570
f. TXT x36571
f. TXT x36572
f. TXT x36573
f. TXT x36574
f. TXT x36575
f. TXT x36576
f. TXT x36577
f. TXT x36578
f. TXT x36579
f. TXT x36580
f. TXT x36581
f. TXT x36582
f. TXT x36583
f. TXT x36584
f. TXT x36585
f. TXT x36586
f. TXT x36587
f. TXT x36588
f. TXT x36589
f. TXT x36590
f. TXT x36591
f. TXT x36592
f. TXT x36593
f. TXT x36594
f. TXT x36595
f. TXT x36596
f. TXT x36597
f. TXT x36598
f. TXT x36599
f. TXT x36600
f. TXT x36601
f. TXT x36602
f. TXT x36603
f. TXT x36604
f. TXT x36605
f. TXT x36606
f. TXT x36607
zcx.*. TXT cx0y b- -c-
f. TXT x36609
f. TXT x36610
f. TXT x36611
f. TXT x36612
f. TXT x36613
f. TXT x36614
f. TXT x36615
f. TXT x36616
f. TXT x36617
f. TXT x36618
f. TXT x36619
f. TXT x36620
f. TXT x36621
f. TXT x36622
f. TXT x36623
f. TXT x36624
f. TXT x36625
f. TXT x36626
f. TXT x36627
f. TXT x36628
f. TXT x36629
f. TXT x36630
f. TXT x36631
f. TXT x36632
f. TXT x36633
f. TXT x36634
f. TXT x36635
f. TXT x36636
f. TXT x36637
f. TXT x36638
f. TXT x36639
f. TXT x36640
f. TXT x36641
f. TXT x36642
f. TXT x36643
f. TXT x36644
f. TXT x36645
f. TXT x36646
f. TXT x36647
f. TXT x36648
f. TXT x36649
f. TXT x36650
f. TXT x36651
f. TXT x36652
f. TXT x36653
f. TXT x36654
f. TXT x36655
f. TXT x36656
f. TXT x36657
f. TXT x36658
f. TXT x36659
f. TXT x36660
f. TXT x36661
f. TXT x36662
f. TXT x36663
f. TXT x36664
f. TXT x36665
f. TXT x36666
f. TXT x36667
f. TXT x36668
f. TXT x36669
f. TXT x36670
f. TXT x36671
 NS 0*c
f. TXT x36673
f. TXT x36674
f. TXT x36675
f. TXT x36676
f. TXT x36677
f. TXT x36678
f. TXT x36679
f. TXT x36680
f. TXT x36681
f. TXT x36682
f. TXT x36683
f. TXT x36684
f. TXT x36685
f. TXT x36686
f. TXT x36687
f. TXT x36688
f. TXT x36689
f. TXT x36690
f. TXT x36691
f. TXT x36692
f. TXT x36693
f. TXT x36694
f. TXT x36695
f. TXT x36696
f. TXT x36697
f. TXT x36698
f. TXT x36699
f. TXT x36700
f. TXT x36701
f. TXT x36702
f. TXT x36703
f. TXT x36704
f. TXT x36705
f. TXT x36706
f. TXT x36707
f. TXT x36708
f. TXT x36709
f. TXT x36710
f. TXT x36711
f. TXT x36712
f. TXT x36713
f. TXT x36714
f. TXT x36715
f. TXT x36716
f. TXT x36717
f. TXT x36718
f. TXT x36719
f. TXT x36720
f. TXT x36721
f. TXT x36722
f. TXT x36723
f. TXT x36724
f. TXT x36725
f. TXT x36726
f. TXT x36727
f. TXT x36728
f. TXT x36729
f. TXT x36730
f. TXT x36731
f. TXT x36732
f. TXT x36733
f. TXT x36734
f. TXT x36735
0y-.z. TXT zby -
f. TXT x36737
f. TXT x36738
f. TXT x36739
f. TXT x36740
f. TXT x36741
f. TXT x36742
f. TXT x36743
f. TXT x36744
f. TXT x36745
f. TXT x36746
f. TXT x36747
f. TXT x36748
f. TXT x36749
f. TXT x36750
f. TXT x36751
f. TXT x36752
f. TXT x36753
f. TXT x36754
f. TXT x36755
f. TXT x36756
f. TXT x36757
f. TXT x36758
f. TXT x36759
f. TXT x36760
f. TXT x36761
f. TXT x36762
f. TXT x36763
f. TXT x36764
f. TXT x36765
f. TXT x36766
f. TXT x36767
f. TXT x36768
f. TXT x36769
f. TXT x36770
f. TXT x36771
f. TXT x36772
f. TXT x36773
f. TXT x36774
f. TXT x36775
f. TXT x36776
f. TXT x36777
f. TXT x36778
f. TXT x36779
f. TXT x36780
f. TXT x36781
f. TXT x36782
f. TXT x36783
f. TXT x36784
f. TXT x36785
f. TXT x36786
f. TXT x36787
f. TXT x36788
f. TXT x36789
f. TXT x36790
f. TXT x36791
f. TXT x36792
f. TXT x36793
f. TXT x36794
f. TXT x36795
f. TXT x36796
f. TXT x36797
f. TXT x36798
f. TXT x36799

f. TXT x36801
f. TXT x36802
f. TXT x36803
f. TXT x36804
f. TXT x36805
f. TXT x36806
f. TXT x36807
f. TXT x36808
f. TXT x36809
f. TXT x36810
f. TXT x36811
f. TXT x36812
f. TXT x36813
f. TXT x36814
f. TXT x36815
f. TXT x36816
f. TXT x36817
f. TXT x36818
f. TXT x36819
f. TXT x36820
f. TXT x36821
f. TXT x36822
f. TXT x36823
f. TXT x36824
f. TXT x36825
f. TXT x36826
f. TXT x36827
f. TXT x36828
f. TXT x36829
f. TXT x36830
f. TXT x36831
f. TXT x36832
f. TXT x36833
f. TXT x36834
f. TXT x36835
f. TXT x36836
f. TXT x36837
f. TXT x36838
f. TXT x36839
f. TXT x36840
f. TXT x36841
f. TXT x36842
f. TXT x36843
f. TXT x36844
f. TXT x36845
f. TXT x36846
f. TXT x36847
f. TXT x36848
f. TXT x36849
f. TXT x36850
f. TXT x36851
f. TXT x36852
f. TXT x36853
f. TXT x36854
f. TXT x36855
f. TXT x36856
f. TXT x36857
f. TXT x36858
f. TXT x36859
f. TXT x36860
f. TXT x36861
f. TXT x36862
f. TXT x36863

f. TXT x36865
f. TXT x36866
f. TXT x36867
f. TXT x36868
f. TXT x36869
f. TXT x36870
f. TXT x36871
f. TXT x36872
f. TXT x36873
f. TXT x36874
f. TXT x36875
f. TXT x36876
f. TXT x36877
f. TXT x36878
f. TXT x36879
f. TXT x36880
f. TXT x36881
f. TXT x36882
f. TXT x36883
f. TXT x36884
f. TXT x36885
f. TXT x36886
f. TXT x36887
f. TXT x36888
f. TXT x36889
f. TXT x36890
f. TXT x36891
f. TXT x36892
f. TXT x36893
f. TXT x36894
f. TXT x36895
f. TXT x36896
f. TXT x36897
f. TXT x36898
f. TXT x36899
f. TXT x36900
f. TXT x36901
f. TXT x36902
f. TXT x36903
f. TXT x36904
f. TXT x36905
f. TXT x36906
f. TXT x36907
f. TXT x36908
f. TXT x36909
f. TXT x36910
f. TXT x36911
f. TXT x36912
f. TXT x36913
f. TXT x36914
f. TXT x36915
f. TXT x36916
f. TXT x36917
f. TXT x36918
f. TXT x36919
f. TXT x36920
f. TXT x36921
f. TXT x36922
f. TXT x36923
f. TXT x36924
f. TXT x36925
f. TXT x36926
f. TXT x36927
@ NS 0*a y0
f. TXT x36929
f. TXT x36930
f. TXT x36931
f. TXT x36932
f. TXT x36933
f. TXT x36934
f. TXT x36935
f. TXT x36936
f. TXT x36937
f. TXT x36938
f. TXT x36939
f. TXT x36940
f. TXT x36941
f. TXT x36942
f. TXT x36943
f. TXT x36944
f. TXT x36945
f. TXT x36946
f. TXT x36947
f. TXT x36948
f. TXT x36949
f. TXT x36950
f. TXT x36951
f. TXT x36952
f. TXT x36953
f. TXT x36954
f. TXT x36955
f. TXT x36956
f. TXT x36957
f. TXT x36958
f. TXT x36959
f. TXT x36960
f. TXT x36961
f. TXT x36962
f. TXT x36963
f. TXT x36964
f. TXT x36965
f. TXT x36966
f. TXT x36967
f. TXT x36968
f. TXT x36969
f. TXT x36970
f. TXT x36971
f. TXT x36972
f. TXT x36973
f. TXT x36974
f. TXT x36975
f. TXT x36976
f. TXT x36977
f. TXT x36978
f. TXT x36979
f. TXT x36980
f. TXT x36981
f. TXT x36982
f. TXT x36983
f. TXT x36984
f. TXT x36985
f. TXT x36986
f. TXT x36987
f. TXT x36988
f. TXT x36989
f. TXT x36990
f. TXT x36991
 TXT zzx cy* 00-
f. TXT x36993
f. TXT x36994
f. TXT x36995
f. TXT x36996
f. TXT x36997
f. TXT x36998
f. TXT x36999
f. TXT x37000
f. TXT x37001
f. TXT x37002
f. TXT x37003
f. TXT x37004
f. TXT x37005
f. TXT x37006
f. TXT x37007
f. TXT x37008
f. TXT x37009
f. TXT x37010
f. TXT x37011
f. TXT x37012
f. TXT x37013
f. TXT x37014
f. TXT x37015
f. TXT x37016
f. TXT x37017
f. TXT x37018
f. TXT x37019
f. TXT x37020
f. TXT x37021
f. TXT x37022
f. TXT x37023
f. TXT x37024
f. TXT x37025
f. TXT x37026
f. TXT x37027
f. TXT x37028
f. TXT x37029
f. TXT x37030
f. TXT x37031
f. TXT x37032
f. TXT x37033
f. TXT x37034
f. TXT x37035
f. TXT x37036
f. TXT x37037
f. TXT x37038
f. TXT x37039
f. TXT x37040
f. TXT x37041
f. TXT x37042
f. TXT x37043
f. TXT x37044
f. TXT x37045
f. TXT x37046
f. TXT x37047
f. TXT x37048
f. TXT x37049
f. TXT x37050
f. TXT x37051
f. TXT x37052
f. TXT x37053
f. TXT x37054
f. TXT x37055
 A y a-
f. TXT x37057
f. TXT x37058
f. TXT x37059
f. TXT x37060
f. TXT x37061
f. TXT x37062
f. TXT x37063
f. TXT x37064
f. TXT x37065
f. TXT x37066
f. TXT x37067
f. TXT x37068
f. TXT x37069
f. TXT x37070
f. TXT x37071
f. TXT x37072
f. TXT x37073
f. TXT x37074
f. TXT x37075
f. TXT x37076
f. TXT x37077
f. TXT x37078
f. TXT x37079
f. TXT x37080
f. TXT x37081
f. TXT x37082
f. TXT x37083
f. TXT x37084
f. TXT x37085
f. TXT x37086
f. TXT x37087
f. TXT x37088
f. TXT x37089
f. TXT x37090
f. TXT x37091
f. TXT x37092
f. TXT x37093
f. TXT x37094
f. TXT x37095
f. TXT x37096
f. TXT x37097
f. TXT x37098
f. TXT x37099
f. TXT x37100
f. TXT x37101
f. TXT x37102
f. TXT x37103
f. TXT x37104
f. TXT x37105
f. TXT x37106
f. TXT x37107
f. TXT x37108
f. TXT x37109
f. TXT x37110
f. TXT x37111
f. TXT x37112
f. TXT x37113
f. TXT x37114
f. TXT x37115
f. TXT x37116
f. TXT x37117
f. TXT x37118
f. TXT x37119
c.c. TXT 0z 0 -yy
f. TXT x37121
f. TXT x37122
f. TXT x37123
f. TXT x37124
f. TXT x37125
f. TXT x37126
f. TXT x37127
f. TXT x37128
f. TXT x37129
f. TXT x37130
f. TXT x37131
f. TXT x37132
f. TXT x37133
f. TXT x37134
f. TXT x37135
f. TXT x37136
f. TXT x37137
f. TXT x37138
f. TXT x37139
f. TXT x37140
f. TXT x37141
f. TXT x37142
f. TXT x37143
f. TXT x37144
f. TXT x37145
f. TXT x37146
f. TXT x37147
f. TXT x37148
f. TXT x37149
f. TXT x37150
f. TXT x37151
f. TXT x37152
f. TXT x37153
f. TXT x37154
f. TXT x37155
f. TXT x37156
f. TXT x37157
f. TXT x37158
f. TXT x37159
f. TXT x37160
f. TXT x37161
f. TXT x37162
f. TXT x37163
f. TXT x37164
f. TXT x37165
f. TXT x37166
f. TXT x37167
f. TXT x37168
f. TXT x37169
f. TXT x37170
f. TXT x37171
f. TXT x37172
f. TXT x37173
f. TXT x37174
f. TXT x37175
f. TXT x37176
f. TXT x37177
f. TXT x37178
f. TXT x37179
f. TXT x37180
f. TXT x37181
f. TXT x37182
f. TXT x37183
* TXT z0 0ay
f. TXT x37185
f. TXT x37186
f. TXT x37187
f. TXT x37188
f. TXT x37189
f. TXT x37190
f. TXT x37191
f. TXT x37192
f. TXT x37193
f. TXT x37194
f. TXT x37195
f. TXT x37196
f. TXT x37197
f. TXT x37198
f. TXT x37199
f. TXT x37200
f. TXT x37201
f. TXT x37202
f. TXT x37203
f. TXT x37204
f. TXT x37205
f. TXT x37206
f. TXT x37207
f. TXT x37208
f. TXT x37209
f. TXT x37210
f. TXT x37211
f. TXT x37212
f. TXT x37213
f. TXT x37214
f. TXT x37215
f. TXT x37216
f. TXT x37217
f. TXT x37218
f. TXT x37219
f. TXT x37220
f. TXT x37221
f. TXT x37222
f. TXT x37223
f. TXT x37224
f. TXT x37225
f. TXT x37226
f. TXT x37227
f. TXT x37228
f. TXT x37229
f. TXT x37230
f. TXT x37231
f. TXT x37232
f. TXT x37233
f. TXT x37234
f. TXT x37235
f. TXT x37236
f. TXT x37237
f. TXT x37238
f. TXT x37239
f. TXT x37240
f. TXT x37241
f. TXT x37242
f. TXT x37243
f. TXT x37244
f. TXT x37245
f. TXT x37246
f. TXT x37247
; a
f. TXT x37249
f. TXT x37250
f. TXT x37251
f. TXT x37252
f. TXT x37253
f. TXT x37254
f. TXT x37255
f. TXT x37256
f. TXT x37257
f. TXT x37258
f. TXT x37259
f. TXT x37260
f. TXT x37261
f. TXT x37262
f. TXT x37263
f. TXT x37264
f. TXT x37265
f. TXT x37266
f. TXT x37267
f. TXT x37268
f. TXT x37269
f. TXT x37270
f. TXT x37271
f. TXT x37272
f. TXT x37273
f. TXT x37274
f. TXT x37275
f. TXT x37276
f. TXT x37277
f. TXT x37278
f. TXT x37279
f. TXT x37280
f. TXT x37281
f. TXT x37282
f. TXT x37283
f. TXT x37284
f. TXT x37285
f. TXT x37286
f. TXT x37287
f. TXT x37288
f. TXT x37289
f. TXT x37290
f. TXT x37291
f. TXT x37292
f. TXT x37293
f. TXT x37294
f. TXT x37295
f. TXT x37296
f. TXT x37297
f. TXT x37298
f. TXT x37299
f. TXT x37300
f. TXT x37301
f. TXT x37302
f. TXT x37303
f. TXT x37304
f. TXT x37305
f. TXT x37306
f. TXT x37307
f. TXT x37308
f. TXT x37309
f. TXT x37310
f. TXT x37311
$ORIGIN zz0.cy.
f. TXT x37313
f. TXT x37314
f. TXT x37315
f. TXT x37316
f. TXT x37317
f. TXT x37318
f. TXT x37319
f. TXT x37320
f. TXT x37321
f. TXT x37322
f. TXT x37323
f. TXT x37324
f. TXT x37325
f. TXT x37326
f. TXT x37327
f. TXT x37328
f. TXT x37329
f. TXT x37330
f. TXT x37331
f. TXT x37332
f. TXT x37333
f. TXT x37334
f. TXT x37335
f. TXT x37336
f. TXT x37337
f. TXT x37338
f. TXT x37339
f. TXT x37340
f. TXT x37341
f. TXT x37342
f. TXT x37343
f. TXT x37344
f. TXT x37345
f. TXT x37346
f. TXT x37347
f. TXT x37348
f. TXT x37349
f. TXT x37350
f. TXT x37351
f. TXT x37352
f. TXT x37353
f. TXT x37354
f. TXT x37355
f. TXT x37356
f. TXT x37357
f. TXT x37358
f. TXT x37359
f. TXT x37360
f. TXT x37361
f. TXT x37362
f. TXT x37363
f. TXT x37364
f. TXT x37365
f. TXT x37366
f. TXT x37367
f. TXT x37368
f. TXT x37369
f. TXT x37370
f. TXT x37371
f. TXT x37372
f. TXT x37373
f. TXT x37374
f. TXT x37375

f. TXT x37377
f. TXT x37378
f. TXT x37379
f. TXT x37380
f. TXT x37381
f. TXT x37382
f. TXT x37383
f. TXT x37384
f. TXT x37385
f. TXT x37386
f. TXT x37387
f. TXT x37388
f. TXT x37389
f. TXT x37390
f. TXT x37391
f. TXT x37392
f. TXT x37393
f. TXT x37394
f. TXT x37395
f. TXT x37396
f. TXT x37397
f. TXT x37398
f. TXT x37399
f. TXT x37400
f. TXT x37401
f. TXT x37402
f. TXT x37403
f. TXT x37404
f. TXT x37405
f. TXT x37406
f. TXT x37407
f. TXT x37408
f. TXT x37409
f. TXT x37410
f. TXT x37411
f. TXT x37412
f. TXT x37413
f. TXT x37414
f. TXT x37415
f. TXT x37416
f. TXT x37417
f. TXT x37418
f. TXT x37419
f. TXT x37420
f. TXT x37421
f. TXT x37422
f. TXT x37423
f. TXT x37424
f. TXT x37425
f. TXT x37426
f. TXT x37427
f. TXT x37428
f. TXT x37429
f. TXT x37430
f. TXT x37431
f. TXT x37432
f. TXT x37433
f. TXT x37434
f. TXT x37435
f. TXT x37436
f. TXT x37437
f. TXT x37438
f. TXT x37439
00 TXT **0
f. TXT x37441
f. TXT x37442
f. TXT x37443
f. TXT x37444
f. TXT x37445
f. TXT x37446
f. TXT x37447
f. TXT x37448
f. TXT x37449
f. TXT x37450
f. TXT x37451
f. TXT x37452
f. TXT x37453
f. TXT x37454
f. TXT x37455
f. TXT x37456
f. TXT x37457
f. TXT x37458
f. TXT x37459
f. TXT x37460
f. TXT x37461
f. TXT x37462
f. TXT x37463
f. TXT x37464
f. TXT x37465
f. TXT x37466
f. TXT x37467
f. TXT x37468
f. TXT x37469
f. TXT x37470
f. TXT x37471
f. TXT x37472
f. TXT x37473
f. TXT x37474
f. TXT x37475
f. TXT x37476
f. TXT x37477
f. TXT x37478
f. TXT x37479
f. TXT x37480
f. TXT x37481
f. TXT x37482
f. TXT x37483
f. TXT x37484
f. TXT x37485
f. TXT x37486
f. TXT x37487
f. TXT x37488
f. TXT x37489
f. TXT x37490
f. TXT x37491
f. TXT x37492
f. TXT x37493
f. TXT x37494
f. TXT x37495
f. TXT x37496
f. TXT x37497
f. TXT x37498
f. TXT x37499
f. TXT x37500
f. TXT x37501
f. TXT x37502
f. TXT x37503
zxy A a*b
f. TXT x37505
f. TXT x37506
f. TXT x37507
f. TXT x37508
f. TXT x37509
f. TXT x37510
f. TXT x37511
f. TXT x37512
f. TXT x37513
f. TXT x37514
f. TXT x37515
f. TXT x37516
f. TXT x37517
f. TXT x37518
f. TXT x37519
f. TXT x37520
f. TXT x37521
f. TXT x37522
f. TXT x37523
f. TXT x37524
f. TXT x37525
f. TXT x37526
f. TXT x37527
f. TXT x37528
f. TXT x37529
f. TXT x37530
f. TXT x37531
f. TXT x37532
f. TXT x37533
f. TXT x37534
f. TXT x37535
f. TXT x37536
f. TXT x37537
f. TXT x37538
f. TXT x37539
f. TXT x37540
f. TXT x37541
f. TXT x37542
f. TXT x37543
f. TXT x37544
f. TXT x37545
f. TXT x37546
f. TXT x37547
f. TXT x37548
f. TXT x37549
f. TXT x37550
f. TXT x37551
f. TXT x37552
f. TXT x37553
f. TXT x37554
f. TXT x37555
f. TXT x37556
f. TXT x37557
f. TXT x37558
f. TXT x37559
f. TXT x37560
f. TXT x37561
f. TXT x37562
f. TXT x37563
f. TXT x37564
f. TXT x37565
f. TXT x37566
f. TXT x37567
 NS yx0- yx
f. TXT x37569
f. TXT x37570
f. TXT x37571
f. TXT x37572
f. TXT x37573
f. TXT x37574
f. TXT x37575
f. TXT x37576
f. TXT x37577
f. TXT x37578
f. TXT x37579
f. TXT x37580
f. TXT x37581
f. TXT x37582
f. TXT x37583
f. TXT x37584
f. TXT x37585
f. TXT x37586
f. TXT x37587
f. TXT x37588
f. TXT x37589
f. TXT x37590
f. TXT x37591
f. TXT x37592
f. TXT x37593
f. TXT x37594
f. TXT x37595
f. TXT x37596
f. TXT x37597
f. TXT x37598
f. TXT x37599
f. TXT x37600
f. TXT x37601
f. TXT x37602
f. TXT x37603
f. TXT x37604
f. TXT x37605
f. TXT x37606
f. TXT x37607
f. TXT x37608
f. TXT x37609
f. TXT x37610
f. TXT x37611
f. TXT x37612
f. TXT x37613
f. TXT x37614
f. TXT x37615
f. TXT x37616
f. TXT x37617
f. TXT x37618
f. TXT x37619
f. TXT x37620
f. TXT x37621
f. TXT x37622
f. TXT x37623
f. TXT x37624
f. TXT x37625
f. TXT x37626
f. TXT x37627
f. TXT x37628
f. TXT x37629
f. TXT x37630
f. TXT x37631

f. TXT x37633
f. TXT x37634
f. TXT x37635
f. TXT x37636
f. TXT x37637
f. TXT x37638
f. TXT x37639
f. TXT x37640
f. TXT x37641
f. TXT x37642
f. TXT x37643
f. TXT x37644
f. TXT x37645
f. TXT x37646
f. TXT x37647
f. TXT x37648
f. TXT x37649
f. TXT x37650
f. TXT x37651
f. TXT x37652
f. TXT x37653
f. TXT x37654
f. TXT x37655
f. TXT x37656
f. TXT x37657
f. TXT x37658
f. TXT x37659
f. TXT x37660
f. TXT x37661
f. TXT x37662
f. TXT x37663
f. TXT x37664
f. TXT x37665
f. TXT x37666
f. TXT x37667
f. TXT x37668
f. TXT x37669
f. TXT x37670
f. TXT x37671
f. TXT x37672
f. TXT x37673
f. TXT x37674
f. TXT x37675
f. TXT x37676
f. TXT x37677
f. TXT x37678
f. TXT x37679
f. TXT x37680
f. TXT x37681
f. TXT x37682
f. TXT x37683
f. TXT x37684
f. TXT x37685
f. TXT x37686
f. TXT x37687
f. TXT x37688
f. TXT x37689
f. TXT x37690
f. TXT x37691
f. TXT x37692
f. TXT x37693
f. TXT x37694
f. TXT x37695
@ TXT c*
f. TXT x37697
f. TXT x37698
f. TXT x37699
f. TXT x37700
f. TXT x37701
f. TXT x37702
f. TXT x37703
f. TXT x37704
f. TXT x37705
f. TXT x37706
f. TXT x37707
f. TXT x37708
f. TXT x37709
f. TXT x37710
f. TXT x37711
f. TXT x37712
f. TXT x37713
f. TXT x37714
f. TXT x37715
f. TXT x37716
f. TXT x37717
f. TXT x37718
f. TXT x37719
f. TXT x37720
f. TXT x37721
f. TXT x37722
f. TXT x37723
f. TXT x37724
f. TXT x37725
f. TXT x37726
f. TXT x37727
f. TXT x37728
f. TXT x37729
f. TXT x37730
f. TXT x37731
f. TXT x37732
f. TXT x37733
f. TXT x37734
f. TXT x37735
f. TXT x37736
f. TXT x37737
f. TXT x37738
f. TXT x37739
f. TXT x37740
f. TXT x37741
f. TXT x37742
f. TXT x37743
f. TXT x37744
f. TXT x37745
f. TXT x37746
f. TXT x37747
f. TXT x37748
f. TXT x37749
f. TXT x37750
f. TXT x37751
f. TXT x37752
f. TXT x37753
f. TXT x37754
f. TXT x37755
f. TXT x37756
f. TXT x37757
f. TXT x37758
f. TXT x37759
 NS -b * x0
f. TXT x37761
f. TXT x37762
f. TXT x37763
f. TXT x37764
f. TXT x37765
f. TXT x37766
f. TXT x37767
f. TXT x37768
f. TXT x37769
f. TXT x37770
f. TXT x37771
f. TXT x37772
f. TXT x37773
f. TXT x37774
f. TXT x37775
f. TXT x37776
f. TXT x37777
f. TXT x37778
f. TXT x37779
f. TXT x37780
f. TXT x37781
f. TXT x37782
f. TXT x37783
f. TXT x37784
f. TXT x37785
f. TXT x37786
f. TXT x37787
f. TXT x37788
f. TXT x37789
f. TXT x37790
f. TXT x37791
f. TXT x37792
f. TXT x37793
f. TXT x37794
f. TXT x37795
f. TXT x37796
f. TXT x37797
f. TXT x37798
f. TXT x37799
f. TXT x37800
f. TXT x37801
f. TXT x37802
f. TXT x37803
f. TXT x37804
f. TXT x37805
f. TXT x37806
f. TXT x37807
f. TXT x37808
f. TXT x37809
f. TXT x37810
f. TXT x37811
f. TXT x37812
f. TXT x37813
f. TXT x37814
f. TXT x37815
f. TXT x37816
f. TXT x37817
f. TXT x37818
f. TXT x37819
f. TXT x37820
f. TXT x37821
f. TXT x37822
f. TXT x37823
cc. NS xx z
f. TXT x37825
f. TXT x37826
f. TXT x37827
f. TXT x37828
f. TXT x37829
f. TXT x37830
f. TXT x37831
f. TXT x37832
f. TXT x37833
f. TXT x37834
f. TXT x37835
f. TXT x37836
f. TXT x37837
f. TXT x37838
f. TXT x37839
f. TXT x37840
f. TXT x37841
f. TXT x37842
f. TXT x37843
f. TXT x37844
f. TXT x37845
f. TXT x37846
f. TXT x37847
f. TXT x37848
f. TXT x37849
f. TXT x37850
f. TXT x37851
f. TXT x37852
f. TXT x37853
f. TXT x37854
f. TXT x37855
f. TXT x37856
f. TXT x37857
f. TXT x37858
f. TXT x37859
f. TXT x37860
f. TXT x37861
f. TXT x37862
f. TXT x37863
f. TXT x37864
f. TXT x37865
f. TXT x37866
f. TXT x37867
f. TXT x37868
f. TXT x37869
f. TXT x37870
f. TXT x37871
f. TXT x37872
f. TXT x37873
f. TXT x37874
f. TXT x37875
f. TXT x37876
f. TXT x37877
f. TXT x37878
f. TXT x37879
f. TXT x37880
f. TXT x37881
f. TXT x37882
f. TXT x37883
f. TXT x37884
f. TXT x37885
f. TXT x37886
f. TXT x37887
$ORIGIN y.
f. TXT x37889
f. TXT x37890
f. TXT x37891
f. TXT x37892
f. TXT x37893
f. TXT x37894
f. TXT x37895
f. TXT x37896
f. TXT x37897
f. TXT x37898
f. TXT x37899
f. TXT x37900
f. TXT x37901
f. TXT x37902
f. TXT x37903
f. TXT x37904
f. TXT x37905
f. TXT x37906
f. TXT x37907
f. TXT x37908
f. TXT x37909
f. TXT x37910
f. TXT x37911
f. TXT x37912
f. TXT x37913
f. TXT x37914
f. TXT x37915
f. TXT x37916
f. TXT x37917
f. TXT x37918
f. TXT x37919
f. TXT x37920
f. TXT x37921
f. TXT x37922
f. TXT x37923
f. TXT x37924
f. TXT x37925
f. TXT x37926
f. TXT x37927
f. TXT x37928
f. TXT x37929
f. TXT x37930
f. TXT x37931
f. TXT x37932
f. TXT x37933
f. TXT x37934
f. TXT x37935
f. TXT x37936
f. TXT x37937
f. TXT x37938
f. TXT x37939
f. TXT x37940
f. TXT x37941
f. TXT x37942
f. TXT x37943
f. TXT x37944
f. TXT x37945
f. TXT x37946
f. TXT x37947
f. TXT x37948
f. TXT x37949
f. TXT x37950
f. TXT x37951
y A *x a c
f. TXT x37953
f. TXT x37954
f. TXT x37955
f. TXT x37956
f. TXT x37957
f. TXT x37958
f. TXT x37959
f. TXT x37960
f. TXT x37961
f. TXT x37962
f. TXT x37963
f. TXT x37964
f. TXT x37965
f. TXT x37966
f. TXT x37967
f. TXT x37968
f. TXT x37969
f. TXT x37970
f. TXT x37971
f. TXT x37972
f. TXT x37973
f. TXT x37974
f. TXT x37975
f. TXT x37976
f. TXT x37977
f. TXT x37978
f. TXT x37979
f. TXT x37980
f. TXT x37981
f. TXT x37982
f. TXT x37983
f. TXT x37984
f. TXT x37985
f. TXT x37986
f. TXT x37987
f. TXT x37988
f. TXT x37989
f. TXT x37990
f. TXT x37991
f. TXT x37992
f. TXT x37993
f. TXT x37994
f. TXT x37995
f. TXT x37996
f. TXT x37997
f. TXT x37998
f. TXT x37999
f. TXT x38000
f. TXT x38001
f. TXT x38002
f. TXT x38003
f. TXT x38004
f. TXT x38005
f. TXT x38006
f. TXT x38007
f. TXT x38008
f. TXT x38009
f. TXT x38010
f. TXT x38011
f. TXT x38012
f. TXT x38013
f. TXT x38014
f. TXT x38015
 TXT 0
f. TXT x38017
f. TXT x38018
f. TXT x38019
f. TXT x38020
f. TXT x38021
f. TXT x38022
f. TXT x38023
f. TXT x38024
f. TXT x38025
f. TXT x38026
f. TXT x38027
f. TXT x38028
f. TXT x38029
f. TXT x38030
f. TXT x38031
f. TXT x38032
f. TXT x38033
f. TXT x38034
f. TXT x38035
f. TXT x38036
f. TXT x38037
f. TXT x38038
f. TXT x38039
f. TXT x38040
f. TXT x38041
f. TXT x38042
f. TXT x38043
f. TXT x38044
f. TXT x38045
f. TXT x38046
f. TXT x38047
f. TXT x38048
f. TXT x38049
f. TXT x38050
f. TXT x38051
f. TXT x38052
f. TXT x38053
f. TXT x38054
f. TXT x38055
f. TXT x38056
f. TXT x38057
f. TXT x38058
f. TXT x38059
f. TXT x38060
f. TXT x38061
f. TXT x38062
f. TXT x38063
f. TXT x38064
f. TXT x38065
f. TXT x38066
f. TXT x38067
f. TXT x38068
f. TXT x38069
f. TXT x38070
f. TXT x38071
f. TXT x38072
f. TXT x38073
f. TXT x38074
f. TXT x38075
f. TXT x38076
f. TXT x38077
f. TXT x38078
f. TXT x38079
$ORIGIN ybyz.-x.
f. TXT x38081
f. TXT x38082
f. TXT x38083
f. TXT x38084
f. TXT x38085
f. TXT x38086
f. TXT x38087
f. TXT x38088
f. TXT x38089
f. TXT x38090
f. TXT x38091
f. TXT x38092
f. TXT x38093
f. TXT x38094
f. TXT x38095
f. TXT x38096
f. TXT x38097
f. TXT x38098
f. TXT x38099
f. TXT x38100
f. TXT x38101
f. TXT x38102
f. TXT x38103
f. TXT x38104
f. TXT x38105
f. TXT x38106
f. TXT x38107
f. TXT x38108
f. TXT x38109
f. TXT x38110
f. TXT x38111
f. TXT x38112
f. TXT x38113
f. TXT x38114
f. TXT x38115
f. TXT x38116
f. TXT x38117
f. TXT x38118
f. TXT x38119
f. TXT x38120
f. TXT x38121
f. TXT x38122
f. TXT x38123
f. TXT x38124
f. TXT x38125
f. TXT x38126
f. TXT x38127
f. TXT x38128
f. TXT x38129
f. TXT x38130
f. TXT x38131
f. TXT x38132
f. TXT x38133
f. TXT x38134
f. TXT x38135
f. TXT x38136
f. TXT x38137
f. TXT x38138
f. TXT x38139
f. TXT x38140
f. TXT x38141
f. TXT x38142
f. TXT x38143
 A a0y0 -bza --*
f. TXT x38145
f. TXT x38146
f. TXT x38147
f. TXT x38148
f. TXT x38149
f. TXT x38150
f. TXT x38151
f. TXT x38152
f. TXT x38153
f. TXT x38154
f. TXT x38155
f. TXT x38156
f. TXT x38157
f. TXT x38158
f. TXT x38159
f. TXT x38160
f. TXT x38161
f. TXT x38162
f. TXT x38163
f. TXT x38164
f. TXT x38165
f. TXT x38166
f. TXT x38167
f. TXT x38168
f. TXT x38169
f. TXT x38170
f. TXT x38171
f. TXT x38172
f. TXT x38173
f. TXT x38174
f. TXT x38175
f. TXT x38176
f. TXT x38177
f. TXT x38178
f. TXT x38179
f. TXT x38180
f. TXT x38181
f. TXT x38182
f. TXT x38183
f. TXT x38184
f. TXT x38185
f. TXT x38186
f. TXT x38187
f. TXT x38188
f. TXT x38189
f. TXT x38190
f. TXT x38191
f. TXT x38192
f. TXT x38193
f. TXT x38194
f. TXT x38195
f. TXT x38196
f. TXT x38197
f. TXT x38198
f. TXT x38199
f. TXT x38200
f. TXT x38201
f. TXT x38202
f. TXT x38203
f. TXT x38204
f. TXT x38205
f. TXT x38206
f. TXT x38207
@ A 0-** abx
f. TXT x38209
f. TXT x38210
f. TXT x38211
f. TXT x38212
f. TXT x38213
f. TXT x38214
f. TXT x38215
f. TXT x38216
f. TXT x38217
f. TXT x38218
f. TXT x38219
f. TXT x38220
f. TXT x38221
f. TXT x38222
f. TXT x38223
f. TXT x38224
f. TXT x38225
f. TXT x38226
f. TXT x38227
f. TXT x38228
f. TXT x38229
f. TXT x38230
f. TXT x38231
f. TXT x38232
f. TXT x38233
f. TXT x38234
f. TXT x38235
f. TXT x38236
f. TXT x38237
f. TXT x38238
f. TXT x38239
f. TXT x38240
f. TXT x38241
f. TXT x38242
f. TXT x38243
f. TXT x38244
f. TXT x38245
f. TXT x38246
f. TXT x38247
f. TXT x38248
f. TXT x38249
f. TXT x38250
f. TXT x38251
f. TXT x38252
f. TXT x38253
f. TXT x38254
f. TXT x38255
f. TXT x38256
f. TXT x38257
f. TXT x38258
f. TXT x38259
f. TXT x38260
f. TXT x38261
f. TXT x38262
f. TXT x38263
f. TXT x38264
f. TXT x38265
f. TXT x38266
f. TXT x38267
f. TXT x38268
f. TXT x38269
f. TXT x38270
f. TXT x38271
; *cc
f. TXT x38273
f. TXT x38274
f. TXT x38275
f. TXT x38276
f. TXT x38277
f. TXT x38278
f. TXT x38279
f. TXT x38280
f. TXT x38281
f. TXT x38282
f. TXT x38283
f. TXT x38284
f. TXT x38285
f. TXT x38286
f. TXT x38287
f. TXT x38288
f. TXT x38289
f. TXT x38290
f. TXT x38291
f. TXT x38292
f. TXT x38293
f. TXT x38294
f. TXT x38295
f. TXT x38296
f. TXT x38297
f. TXT x38298
f. TXT x38299
f. TXT x38300
f. TXT x38301
f. TXT x38302
f. TXT x38303
f. TXT x38304
f. TXT x38305
f. TXT x38306
f. TXT x38307
f. TXT x38308
f. TXT x38309
f. TXT x38310
f. TXT x38311
f. TXT x38312
f. TXT x38313
f. TXT x38314
f. TXT x38315
f. TXT x38316
f. TXT x38317
f. TXT x38318
f. TXT x38319
f. TXT x38320
f. TXT x38321
f. TXT x38322
f. TXT x38323
f. TXT x38324
f. TXT x38325
f. TXT x38326
f. TXT x38327
f. TXT x38328
f. TXT x38329
f. TXT x38330
f. TXT x38331
f. TXT x38332
f. TXT x38333
f. TXT x38334
f. TXT x38335
$ORIGIN cy.y.
f. TXT x38337
f. TXT x38338
f. TXT x38339
f. TXT x38340
f. TXT x38341
f. TXT x38342
f. TXT x38343
f. TXT x38344
f. TXT x38345
f. TXT x38346
f. TXT x38347
f. TXT x38348
f. TXT x38349
f. TXT x38350
f. TXT x38351
f. TXT x38352
f. TXT x38353
f. TXT x38354
f. TXT x38355
f. TXT x38356
f. TXT x38357
f. TXT x38358
f. TXT x38359
f. TXT x38360
f. TXT x38361
f. TXT x38362
f. TXT x38363
f. TXT x38364
f. TXT x38365
f. TXT x38366
f. TXT x38367
f. TXT x38368
f. TXT x38369
f. TXT x38370
f. TXT x38371
f. TXT x38372
f. TXT x38373
f. TXT x38374
f. TXT x38375
f. TXT x38376
f. TXT x38377
f. TXT x38378
f. TXT x38379
f. TXT x38380
f. TXT x38381
f. TXT x38382
f. TXT x38383
f. TXT x38384
f. TXT x38385
f. TXT x38386
f. TXT x38387
f. TXT x38388
f. TXT x38389
f. TXT x38390
f. TXT x38391
f. TXT x38392
f. TXT x38393
f. TXT x38394
f. TXT x38395
f. TXT x38396
f. TXT x38397
f. TXT x38398
f. TXT x38399
czc.xxz0. A az x*ca
f. TXT x38401
f. TXT x38402
f. TXT x38403
f. TXT x38404
f. TXT x38405
f. TXT x38406
f. TXT x38407
f. TXT x38408
f. TXT x38409
f. TXT x38410
f. TXT x38411
f. TXT x38412
f. TXT x38413
f. TXT x38414
f. TXT x38415
f. TXT x38416
f. TXT x38417
f. TXT x38418
f. TXT x38419
f. TXT x38420
f. TXT x38421
f. TXT x38422
f. TXT x38423
f. TXT x38424
f. TXT x38425
f. TXT x38426
f. TXT x38427
f. TXT x38428
f. TXT x38429
f. TXT x38430
f. TXT x38431
f. TXT x38432
f. TXT x38433
f. TXT x38434
f. TXT x38435
f. TXT x38436
f. TXT x38437
f. TXT x38438
f. TXT x38439
f. TXT x38440
f. TXT x38441
f. TXT x38442
f. TXT x38443
f. TXT x38444
f. TXT x38445
f. TXT x38446
f. TXT x38447
f. TXT x38448
f. TXT x38449
f. TXT x38450
f. TXT x38451
f. TXT x38452
f. TXT x38453
f. TXT x38454
f. TXT x38455
f. TXT x38456
f. TXT x38457
f. TXT x38458
f. TXT x38459
f. TXT x38460
f. TXT x38461
f. TXT x38462
f. TXT x38463

f. TXT x38465
f. TXT x38466
f. TXT x38467
f. TXT x38468
f. TXT x38469
f. TXT x38470
f. TXT x38471
f. TXT x38472
f. TXT x38473
f. TXT x38474
f. TXT x38475
f. TXT x38476
f. TXT x38477
f. TXT x38478
f. TXT x38479
f. TXT x38480
f. TXT x38481
f. TXT x38482
f. TXT x38483
f. TXT x38484
f. TXT x38485
f. TXT x38486
f. TXT x38487
f. TXT x38488
f. TXT x38489
f. TXT x38490
f. TXT x38491
f. TXT x38492
f. TXT x38493
f. TXT x38494
f. TXT x38495
f. TXT x38496
f. TXT x38497
f. TXT x38498
f. TXT x38499
f. TXT x38500
f. TXT x38501
f. TXT x38502
f. TXT x38503
f. TXT x38504
f. TXT x38505
f. TXT x38506
f. TXT x38507
f. TXT x38508
f. TXT x38509
f. TXT x38510
f. TXT x38511
f. TXT x38512
f. TXT x38513
f. TXT x38514
f. TXT x38515
f. TXT x38516
f. TXT x38517
f. TXT x38518
f. TXT x38519
f. TXT x38520
f. TXT x38521
f. TXT x38522
f. TXT x38523
f. TXT x38524
f. TXT x38525
f. TXT x38526
f. TXT x38527

f. TXT x38529
f. TXT x38530
f. TXT x38531
f. TXT x38532
f. TXT x38533
f. TXT x38534
f. TXT x38535
f. TXT x38536
f. TXT x38537
f. TXT x38538
f. TXT x38539
f. TXT x38540
f. TXT x38541
f. TXT x38542
f. TXT x38543
f. TXT x38544
f. TXT x38545
f. TXT x38546
f. TXT x38547
f. TXT x38548
f. TXT x38549
f. TXT x38550
f. TXT x38551
f. TXT x38552
f. TXT x38553
f. TXT x38554
f. TXT x38555
f. TXT x38556
f. TXT x38557
f. TXT x38558
f. TXT x38559
f. TXT x38560
f. TXT x38561
f. TXT x38562
f. TXT x38563
f. TXT x38564
f. TXT x38565
f. TXT x38566
f. TXT x38567
f. TXT x38568
f. TXT x38569
f. TXT x38570
f. TXT x38571
f. TXT x38572
f. TXT x38573
f. TXT x38574
f. TXT x38575
f. TXT x38576
f. TXT x38577
f. TXT x38578
f. TXT x38579
f. TXT x38580
f. TXT x38581
f. TXT x38582
f. TXT x38583
f. TXT x38584
f. TXT x38585
f. TXT x38586
f. TXT x38587
f. TXT x38588
f. TXT x38589
f. TXT x38590
f. TXT x38591
 A ac - b
f. TXT x38593
f. TXT x38594
f. TXT x38595
f. TXT x38596
f. TXT x38597
f. TXT x38598
f. TXT x38599
f. TXT x38600
f. TXT x38601
f. TXT x38602
f. TXT x38603
f. TXT x38604
f. TXT x38605
f. TXT x38606
f. TXT x38607
f. TXT x38608
f. TXT x38609
f. TXT x38610
f. TXT x38611
f. TXT x38612
f. TXT x38613
f. TXT x38614
f. TXT x38615
f. TXT x38616
f. TXT x38617
f. TXT x38618
f. TXT x38619
f. TXT x38620
f. TXT x38621
f. TXT x38622
f. TXT x38623
f. TXT x38624
f. TXT x38625
f. TXT x38626
f. TXT x38627
f. TXT x38628
f. TXT x38629
f. TXT x38630
f. TXT x38631
f. TXT x38632
f. TXT x38633
f. TXT x38634
f. TXT x38635
f. TXT x38636
f. TXT x38637
f. TXT x38638
f. TXT x38639
f. TXT x38640
f. TXT x38641
f. TXT x38642
f. TXT x38643
f. TXT x38644
f. TXT x38645
f. TXT x38646
f. TXT x38647
f. TXT x38648
f. TXT x38649
f. TXT x38650
f. TXT x38651
f. TXT x38652
f. TXT x38653
f. TXT x38654
f. TXT x38655
$TTL 4294967295
f. TXT x38657
f. TXT x38658
f. TXT x38659
f. TXT x38660
f. TXT x38661
f. TXT x38662
f. TXT x38663
f. TXT x38664
f. TXT x38665
f. TXT x38666
f. TXT x38667
f. TXT x38668
f. TXT x38669
f. TXT x38670
f. TXT x38671
f. TXT x38672
f. TXT x38673
f. TXT x38674
f. TXT x38675
f. TXT x38676
f. TXT x38677
f. TXT x38678
f. TXT x38679
f. TXT x38680
f. TXT x38681
f. TXT x38682
f. TXT x38683
f. TXT x38684
f. TXT x38685
f. TXT x38686
f. TXT x38687
f. TXT x38688
f. TXT x38689
f. TXT x38690
f. TXT x38691
f. TXT x38692
f. TXT x38693
f. TXT x38694
f. TXT x38695
f. TXT x38696
f. TXT x38697
f. TXT x38698
f. TXT x38699
f. TXT x38700
f. TXT x38701
f. TXT x38702
f. TXT x38703
f. TXT x38704
f. TXT x38705
f. TXT x38706
f. TXT x38707
f. TXT x38708
f. TXT x38709
f. TXT x38710
f. TXT x38711
f. TXT x38712
f. TXT x38713
f. TXT x38714
f. TXT x38715
f. TXT x38716
f. TXT x38717
f. TXT x38718
f. TXT x38719

f. TXT x38721
f. TXT x38722
f. TXT x38723
f. TXT x38724
f. TXT x38725
f. TXT x38726
f. TXT x38727
f. TXT x38728
f. TXT x38729
f. TXT x38730
f. TXT x38731
f. TXT x38732
f. TXT x38733
f. TXT x38734
f. TXT x38735
f. TXT x38736
f. TXT x38737
f. TXT x38738
f. TXT x38739
f. TXT x38740
f. TXT x38741
f. TXT x38742
f. TXT x38743
f. TXT x38744
f. TXT x38745
f. TXT x38746
f. TXT x38747
f. TXT x38748
f. TXT x38749
f. TXT x38750
f. TXT x38751
f. TXT x38752
f. TXT x38753
f. TXT x38754
f. TXT x38755
f. TXT x38756
f. TXT x38757
f. TXT x38758
f. TXT x38759
f. TXT x38760
f. TXT x38761
f. TXT x38762
f. TXT x38763
f. TXT x38764
f. TXT x38765
f. TXT x38766
f. TXT x38767
f. TXT x38768
f. TXT x38769
f. TXT x38770
f. TXT x38771
f. TXT x38772
f. TXT x38773
f. TXT x38774
f. TXT x38775
f. TXT x38776
f. TXT x38777
f. TXT x38778
f. TXT x38779
f. TXT x38780
f. TXT x38781
f. TXT x38782
f. TXT x38783

f. TXT x38785
f. TXT x38786
f. TXT x38787
f. TXT x38788
f. TXT x38789
f. TXT x38790
f. TXT x38791
f. TXT x38792
f. TXT x38793
f. TXT x38794
f. TXT x38795
f. TXT x38796
f. TXT x38797
f. TXT x38798
f. TXT x38799
f. TXT x38800
f. TXT x38801
f. TXT x38802
f. TXT x38803
f. TXT x38804
f. TXT x38805
f. TXT x38806
f. TXT x38807
f. TXT x38808
f. TXT x38809
f. TXT x38810
f. TXT x38811
f. TXT x38812
f. TXT x38813
f. TXT x38814
f. TXT x38815
f. TXT x38816
f. TXT x38817
f. TXT x38818
f. TXT x38819
f. TXT x38820
f. TXT x38821
f. TXT x38822
f. TXT x38823
f. TXT x38824
f. TXT x38825
f. TXT x38826
f. TXT x38827
f. TXT x38828
f. TXT x38829
f. TXT x38830
f. TXT x38831
f. TXT x38832
f. TXT x38833
f. TXT x38834
f. TXT x38835
f. TXT x38836
f. TXT x38837
f. TXT x38838
f. TXT x38839
f. TXT x38840
f. TXT x38841
f. TXT x38842
f. TXT x38843
f. TXT x38844
f. TXT x38845
f. TXT x38846
f. TXT x38847
- A *0 y0 a
f. TXT x38849
f. TXT x38850
f. TXT x38851
f. TXT x38852
f. TXT x38853
f. TXT x38854
f. TXT x38855
f. TXT x38856
f. TXT x38857
f. TXT x38858
f. TXT x38859
f. TXT x38860
f. TXT x38861
f. TXT x38862
f. TXT x38863
f. TXT x38864
f. TXT x38865
f. TXT x38866
f. TXT x38867
f. TXT x38868
f. TXT x38869
f. TXT x38870
f. TXT x38871
f. TXT x38872
f. TXT x38873
f. TXT x38874
f. TXT x38875
f. TXT x38876
f. TXT x38877
f. TXT x38878
f. TXT x38879
f. TXT x38880
f. TXT x38881
f. TXT x38882
f. TXT x38883
f. TXT x38884
f. TXT x38885
f. TXT x38886
f. TXT x38887
f. TXT x38888
f. TXT x38889
f. TXT x38890
f. TXT x38891
f. TXT x38892
f. TXT x38893
f. TXT x38894
f. TXT x38895
f. TXT x38896
f. TXT x38897
f. TXT x38898
f. TXT x38899
f. TXT x38900
f. TXT x38901
f. TXT x38902
f. TXT x38903
f. TXT x38904
f. TXT x38905
f. TXT x38906
f. TXT x38907
f. TXT x38908
f. TXT x38909
f. TXT x38910
f. TXT x38911
 A x ccb vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
f. TXT x38913
f. TXT x38914
f. TXT x38915
f. TXT x38916
f. TXT x38917
f. TXT x38918
f. TXT x38919
f. TXT x38920
f. TXT x38921
f. TXT x38922
f. TXT x38923
f. TXT x38924
f. TXT x38925
f. TXT x38926
f. TXT x38927
f. TXT x38928
f. TXT x38929
f. TXT x38930
f. TXT x38931
f. TXT x38932
f. TXT x38933
f. TXT x38934
f. TXT x38935
f. TXT x38936
f. TXT x38937
f. TXT x38938
f. TXT x38939
f. TXT x38940
f. TXT x38941
f. TXT x38942
f. TXT x38943
f. TXT x38944
f. TXT x38945
f. TXT x38946
f. TXT x38947
f. TXT x38948
f. TXT x38949
f. TXT x38950
f. TXT x38951
f. TXT x38952
f. TXT x38953
f. TXT x38954
f. TXT x38955
f. TXT x38956
f. TXT x38957
f. TXT x38958
f. TXT x38959
f. TXT x38960
f. TXT x38961
f. TXT x38962
f. TXT x38963
f. TXT x38964
f. TXT x38965
f. TXT x38966
f. TXT x38967
f. TXT x38968
f. TXT x38969
f. TXT x38970
f. TXT x38971
f. TXT x38972
f. TXT x38973
f. TXT x38974
f. TXT x38975
; 0
f. TXT x38977
f. TXT x38978
f. TXT x38979
f. TXT x38980
f. TXT x38981
f. TXT x38982
f. TXT x38983
f. TXT x38984
f. TXT x38985
f. TXT x38986
f. TXT x38987
f. TXT x38988
f. TXT x38989
f. TXT x38990
f. TXT x38991
f. TXT x38992
f. TXT x38993
f. TXT x38994
f. TXT x38995
f. TXT x38996
f. TXT x38997
f. TXT x38998
f. TXT x38999
f. TXT x39000
f. TXT x39001
f. TXT x39002
f. TXT x39003
f. TXT x39004
f. TXT x39005
f. TXT x39006
f. TXT x39007
f. TXT x39008
f. TXT x39009
f. TXT x39010
f. TXT x39011
f. TXT x39012
f. TXT x39013
f. TXT x39014
f. TXT x39015
f. TXT x39016
f. TXT x39017
f. TXT x39018
f. TXT x39019
f. TXT x39020
f. TXT x39021
f. TXT x39022
f. TXT x39023
f. TXT x39024
f. TXT x39025
f. TXT x39026
f. TXT x39027
f. TXT x39028
f. TXT x39029
f. TXT x39030
f. TXT x39031
f. TXT x39032
f. TXT x39033
f. TXT x39034
f. TXT x39035
f. TXT x39036
f. TXT x39037
f. TXT x39038
f. TXT x39039
 TXT y* a*by bz
f. TXT x39041
f. TXT x39042
f. TXT x39043
f. TXT x39044
f. TXT x39045
f. TXT x39046
f. TXT x39047
f. TXT x39048
f. TXT x39049
f. TXT x39050
f. TXT x39051
f. TXT x39052
f. TXT x39053
f. TXT x39054
f. TXT x39055
f. TXT x39056
f. TXT x39057
f. TXT x39058
f. TXT x39059
f. TXT x39060
f. TXT x39061
f. TXT x39062
f. TXT x39063
f. TXT x39064
f. TXT x39065
f. TXT x39066
f. TXT x39067
f. TXT x39068
f. TXT x39069
f. TXT x39070
f. TXT x39071
f. TXT x39072
f. TXT x39073
f. TXT x39074
f. TXT x39075
f. TXT x39076
f. TXT x39077
f. TXT x39078
f. TXT x39079
f. TXT x39080
f. TXT x39081
f. TXT x39082
f. TXT x39083
f. TXT x39084
f. TXT x39085
f. TXT x39086
f. TXT x39087
f. TXT x39088
f. TXT x39089
f. TXT x39090
f. TXT x39091
f. TXT x39092
f. TXT x39093
f. TXT x39094
f. TXT x39095
f. TXT x39096
f. TXT x39097
f. TXT x39098
f. TXT x39099
f. TXT x39100
f. TXT x39101
f. TXT x39102
f. TXT x39103
$ORIGIN -0.
f. TXT x39105
f. TXT x39106
f. TXT x39107
f. TXT x39108
f. TXT x39109
f. TXT x39110
f. TXT x39111
f. TXT x39112
f. TXT x39113
f. TXT x39114
f. TXT x39115
f. TXT x39116
f. TXT x39117
f. TXT x39118
f. TXT x39119
f. TXT x39120
f. TXT x39121
f. TXT x39122
f. TXT x39123
f. TXT x39124
f. TXT x39125
f. TXT x39126
f. TXT x39127
f. TXT x39128
f. TXT x39129
f. TXT x39130
f. TXT x39131
f. TXT x39132
f. TXT x39133
f. TXT x39134
f. TXT x39135
f. TXT x39136
f. TXT x39137
f. TXT x39138
f. TXT x39139
f. TXT x39140
f. TXT x39141
f. TXT x39142
f. TXT x39143
f. TXT x39144
f. TXT x39145
f. TXT x39146
f. TXT x39147
f. TXT x39148
f. TXT x39149
f. TXT x39150
f. TXT x39151
f. TXT x39152
f. TXT x39153
f. TXT x39154
f. TXT x39155
f. TXT x39156
f. TXT x39157
f. TXT x39158
f. TXT x39159
f. TXT x39160
f. TXT x39161
f. TXT x39162
f. TXT x39163
f. TXT x39164
f. TXT x39165
f. TXT x39166
f. TXT x39167
cy-c. A yz
f. TXT x39169
f. TXT x39170
f. TXT x39171
f. TXT x39172
f. TXT x39173
f. TXT x39174
f. TXT x39175
f. TXT x39176
f. TXT x39177
f. TXT x39178
f. TXT x39179
f. TXT x39180
f. TXT x39181
f. TXT x39182
f. TXT x39183
f. TXT x39184
f. TXT x39185
f. TXT x39186
f. TXT x39187
f. TXT x39188
f. TXT x39189
f. TXT x39190
f. TXT x39191
f. TXT x39192
f. TXT x39193
f. TXT x39194
f. TXT x39195
f. TXT x39196
f. TXT x39197
f. TXT x39198
f. TXT x39199
f. TXT x39200
f. TXT x39201
f. TXT x39202
f. TXT x39203
f. TXT x39204
f. TXT x39205
f. TXT x39206
f. TXT x39207
f. TXT x39208
f. TXT x39209
f. TXT x39210
f. TXT x39211
f. TXT x39212
f. TXT x39213
f. TXT x39214
f. TXT x39215
f. TXT x39216
f. TXT x39217
f. TXT x39218
f. TXT x39219
f. TXT x39220
f. TXT x39221
f. TXT x39222
f. TXT x39223
f. TXT x39224
f. TXT x39225
f. TXT x39226
f. TXT x39227
f. TXT x39228
f. TXT x39229
f. TXT x39230
f. TXT x39231
@ TXT vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
f. TXT x39233
f. TXT x39234
f. TXT x39235
f. TXT x39236
f. TXT x39237
f. TXT x39238
f. TXT x39239
f. TXT x39240
f. TXT x39241
f. TXT x39242
f. TXT x39243
f. TXT x39244
f. TXT x39245
f. TXT x39246
f. TXT x39247
f. TXT x39248
f. TXT x39249
f. TXT x39250
f. TXT x39251
f. TXT x39252
f. TXT x39253
f. TXT x39254
f. TXT x39255
f. TXT x39256
f. TXT x39257
f. TXT x39258
f. TXT x39259
f. TXT x39260
f. TXT x39261
f. TXT x39262
f. TXT x39263
f. TXT x39264
f. TXT x39265
f. TXT x39266
f. TXT x39267
f. TXT x39268
f. TXT x39269
f. TXT x39270
f. TXT x39271
f. TXT x39272
f. TXT x39273
f. TXT x39274
f. TXT x39275
f. TXT x39276
f. TXT x39277
f. TXT x39278
f. TXT x39279
f. TXT x39280
f. TXT x39281
f. TXT x39282
f. TXT x39283
f. TXT x39284
f. TXT x39285
f. TXT x39286
f. TXT x39287
f. TXT x39288
f. TXT x39289
f. TXT x39290
f. TXT x39291
f. TXT x39292
f. TXT x39293
f. TXT x39294
f. TXT x39295
@ A *- 0-0c 0
f. TXT x39297
f. TXT x39298
f. TXT x39299
f. TXT x39300
f. TXT x39301
f. TXT x39302
f. TXT x39303
f. TXT x39304
f. TXT x39305
f. TXT x39306
f. TXT x39307
f. TXT x39308
f. TXT x39309
f. TXT x39310
f. TXT x39311
f. TXT x39312
f. TXT x39313
f. TXT x39314
f. TXT x39315
f. TXT x39316
f. TXT x39317
f. TXT x39318
f. TXT x39319
f. TXT x39320
f. TXT x39321
f. TXT x39322
f. TXT x39323
f. TXT x39324
f. TXT x39325
f. TXT x39326
f. TXT x39327
f. TXT x39328
f. TXT x39329
f. TXT x39330
f. TXT x39331
f. TXT x39332
f. TXT x39333
f. TXT x39334
f. TXT x39335
f. TXT x39336
f. TXT x39337
f. TXT x39338
f. TXT x39339
f. TXT x39340
f. TXT x39341
f. TXT x39342
f. TXT x39343
f. TXT x39344
f. TXT x39345
f. TXT x39346
f. TXT x39347
f. TXT x39348
f. TXT x39349
f. TXT x39350
f. TXT x39351
f. TXT x39352
f. TXT x39353
f. TXT x39354
f. TXT x39355
f. TXT x39356
f. TXT x39357
f. TXT x39358
f. TXT x39359
ayx. TXT y -a
f. TXT x39361
f. TXT x39362
f. TXT x39363
f. TXT x39364
f. TXT x39365
f. TXT x39366
f. TXT x39367
f. TXT x39368
f. TXT x39369
f. TXT x39370
f. TXT x39371
f. TXT x39372
f. TXT x39373
f. TXT x39374
f. TXT x39375
f. TXT x39376
f. TXT x39377
f. TXT x39378
f. TXT x39379
f. TXT x39380
f. TXT x39381
f. TXT x39382
f. TXT x39383
f. TXT x39384
f. TXT x39385
f. TXT x39386
f. TXT x39387
f. TXT x39388
f. TXT x39389
f. TXT x39390
f. TXT x39391
f. TXT x39392
f. TXT x39393
f. TXT x39394
f. TXT x39395
f. TXT x39396
f. TXT x39397
f. TXT x39398
f. TXT x39399
f. TXT x39400
f. TXT x39401
f. TXT x39402
f. TXT x39403
f. TXT x39404
f. TXT x39405
f. TXT x39406
f. TXT x39407
f. TXT x39408
f. TXT x39409
f. TXT x39410
f. TXT x39411
f. TXT x39412
f. TXT x39413
f. TXT x39414
f. TXT x39415
f. TXT x39416
f. TXT x39417
f. TXT x39418
f. TXT x39419
f. TXT x39420
f. TXT x39421
f. TXT x39422
f. TXT x39423
@ TXT b-
f. TXT x39425
f. TXT x39426
f. TXT x39427
f. TXT x39428
f. TXT x39429
f. TXT x39430
f. TXT x39431
f. TXT x39432
f. TXT x39433
f. TXT x39434
f. TXT x39435
f. TXT x39436
f. TXT x39437
f. TXT x39438
f. TXT x39439
f. TXT x39440
f. TXT x39441
f. TXT x39442
f. TXT x39443
f. TXT x39444
f. TXT x39445
f. TXT x39446
f. TXT x39447
f. TXT x39448
f. TXT x39449
f. TXT x39450
f. TXT x39451
f. TXT x39452
f. TXT x39453
f. TXT x39454
f. TXT x39455
f. TXT x39456
f. TXT x39457
f. TXT x39458
f. TXT x39459
f. TXT x39460
f. TXT x39461
f. TXT x39462
f. TXT x39463
f. TXT x39464
f. TXT x39465
f. TXT x39466
f. TXT x39467
f. TXT x39468
f. TXT x39469
f. TXT x39470
f. TXT x39471
f. TXT x39472
f. TXT x39473
f. TXT x39474
f. TXT x39475
f. TXT x39476
f. TXT x39477
f. TXT x39478
f. TXT x39479
f. TXT x39480
f. TXT x39481
f. TXT x39482
f. TXT x39483
f. TXT x39484
f. TXT x39485
f. TXT x39486
f. TXT x39487
 NS * *x
f. TXT x39489
f. TXT x39490
f. TXT x39491
f. TXT x39492
f. TXT x39493
f. TXT x39494
f. TXT x39495
f. TXT x39496
f. TXT x39497
f. TXT x39498
f. TXT x39499
f. TXT x39500
f. TXT x39501
f. TXT x39502
f. TXT x39503
f. TXT x39504
f. TXT x39505
f. TXT x39506
f. TXT x39507
f. TXT x39508
f. TXT x39509
f. TXT x39510
f. TXT x39511
f. TXT x39512
f. TXT x39513
f. TXT x39514
f. TXT x39515
f. TXT x39516
f. TXT x39517
f. TXT x39518
f. TXT x39519
f. TXT x39520
f. TXT x39521
f. TXT x39522
f. TXT x39523
f. TXT x39524
f. TXT x39525
f. TXT x39526
f. TXT x39527
f. TXT x39528
f. TXT x39529
f. TXT x39530
f. TXT x39531
f. TXT x39532
f. TXT x39533
f. TXT x39534
f. TXT x39535
f. TXT x39536
f. TXT x39537
f. TXT x39538
f. TXT x39539
f. TXT x39540
f. TXT x39541
f. TXT x39542
f. TXT x39543
f. TXT x39544
f. TXT x39545
f. TXT x39546
f. TXT x39547
f. TXT x39548
f. TXT x39549
f. TXT x39550
f. TXT x39551
 A c
f. TXT x39553
f. TXT x39554
f. TXT x39555
f. TXT x39556
f. TXT x39557
f. TXT x39558
f. TXT x39559
f. TXT x39560
f. TXT x39561
f. TXT x39562
f. TXT x39563
f. TXT x39564
f. TXT x39565
f. TXT x39566
f. TXT x39567
f. TXT x39568
f. TXT x39569
f. TXT x39570
f. TXT x39571
f. TXT x39572
f. TXT x39573
f. TXT x39574
f. TXT x39575
f. TXT x39576
f. TXT x39577
f. TXT x39578
f. TXT x39579
f. TXT x39580
f. TXT x39581
f. TXT x39582
f. TXT x39583
f. TXT x39584
f. TXT x39585
f. TXT x39586
f. TXT x39587
f. TXT x39588
f. TXT x39589
f. TXT x39590
f. TXT x39591
f. TXT x39592
f. TXT x39593
f. TXT x39594
f. TXT x39595
f. TXT x39596
f. TXT x39597
f. TXT x39598
f. TXT x39599
f. TXT x39600
f. TXT x39601
f. TXT x39602
f. TXT x39603
f. TXT x39604
f. TXT x39605
f. TXT x39606
f. TXT x39607
f. TXT x39608
f. TXT x39609
f. TXT x39610
f. TXT x39611
f. TXT x39612
f. TXT x39613
f. TXT x39614
f. TXT x39615
 A z az x-ya
f. TXT x39617
f. TXT x39618
f. TXT x39619
f. TXT x39620
f. TXT x39621
f. TXT x39622
f. TXT x39623
f. TXT x39624
f. TXT x39625
f. TXT x39626
f. TXT x39627
f. TXT x39628
f. TXT x39629
f. TXT x39630
f. TXT x39631
f. TXT x39632
f. TXT x39633
f. TXT x39634
f. TXT x39635
f. TXT x39636
f. TXT x39637
f. TXT x39638
f. TXT x39639
f. TXT x39640
f. TXT x39641
f. TXT x39642
f. TXT x39643
f. TXT x39644
f. TXT x39645
f. TXT x39646
f. TXT x39647
f. TXT x39648
f. TXT x39649
f. TXT x39650
f. TXT x39651
f. TXT x39652
f. TXT x39653
f. TXT x39654
f. TXT x39655
f. TXT x39656
f. TXT x39657
f. TXT x39658
f. TXT x39659
f. TXT x39660
f. TXT x39661
f. TXT x39662
f. TXT x39663
f. TXT x39664
f. TXT x39665
f. TXT x39666
f. TXT x39667
f. TXT x39668
f. TXT x39669
f. TXT x39670
f. TXT x39671
f. TXT x39672
f. TXT x39673
f. TXT x39674
f. TXT x39675
f. TXT x39676
f. TXT x39677
f. TXT x39678
f. TXT x39679
aa.xcy0. NS cz00 a0- zb0*
f. TXT x39681
f. TXT x39682
f. TXT x39683
f. TXT x39684
f. TXT x39685
f. TXT x39686
f. TXT x39687
f. TXT x39688
f. TXT x39689
f. TXT x39690
f. TXT x39691
f. TXT x39692
f. TXT x39693
f. TXT x39694
f. TXT x39695
f. TXT x39696
f. TXT x39697
f. TXT x39698
f. TXT x39699
f. TXT x39700
f. TXT x39701
f. TXT x39702
f. TXT x39703
f. TXT x39704
f. TXT x39705
f. TXT x39706
f. TXT x39707
f. TXT x39708
f. TXT x39709
f. TXT x39710
f. TXT x39711
f. TXT x39712
f. TXT x39713
f. TXT x39714
f. TXT x39715
f. TXT x39716
f. TXT x39717
f. TXT x39718
f. TXT x39719
f. TXT x39720
f. TXT x39721
f. TXT x39722
f. TXT x39723
f. TXT x39724
f. TXT x39725
f. TXT x39726
f. TXT x39727
f. TXT x39728
f. TXT x39729
f. TXT x39730
f. TXT x39731
f. TXT x39732
f. TXT x39733
f. TXT x39734
f. TXT x39735
f. TXT x39736
f. TXT x39737
f. TXT x39738
f. TXT x39739
f. TXT x39740
f. TXT x39741
f. TXT x39742
f. TXT x39743
; yzaa
f. TXT x39745
f. TXT x39746
f. TXT x39747
f. TXT x39748
f. TXT x39749
f. TXT x39750
f. TXT x39751
f. TXT x39752
f. TXT x39753
f. TXT x39754
f. TXT x39755
f. TXT x39756
f. TXT x39757
f. TXT x39758
f. TXT x39759
f. TXT x39760
f. TXT x39761
f. TXT x39762
f. TXT x39763
f. TXT x39764
f. TXT x39765
f. TXT x39766
f. TXT x39767
f. TXT x39768
f. TXT x39769
f. TXT x39770
f. TXT x39771
f. TXT x39772
f. TXT x39773
f. TXT x39774
f. TXT x39775
f. TXT x39776
f. TXT x39777
f. TXT x39778
f. TXT x39779
f. TXT x39780
f. TXT x39781
f. TXT x39782
f. TXT x39783
f. TXT x39784
f. TXT x39785
f. TXT x39786
f. TXT x39787
f. TXT x39788
f. TXT x39789
f. TXT x39790
f. TXT x39791
f. TXT x39792
f. TXT x39793
f. TXT x39794
f. TXT x39795
f. TXT x39796
f. TXT x39797
f. TXT x39798
f. TXT x39799
f. TXT x39800
f. TXT x39801
f. TXT x39802
f. TXT x39803
f. TXT x39804
f. TXT x39805
f. TXT x39806
f. TXT x39807
0xy A **zb x*bc
f. TXT x39809
f. TXT x39810
f. TXT x39811
f. TXT x39812
f. TXT x39813
f. TXT x39814
f. TXT x39815
f. TXT x39816
f. TXT x39817
f. TXT x39818
f. TXT x39819
f. TXT x39820
f. TXT x39821
f. TXT x39822
f. TXT x39823
f. TXT x39824
f. TXT x39825
f. TXT x39826
f. TXT x39827
f. TXT x39828
f. TXT x39829
f. TXT x39830
f. TXT x39831
f. TXT x39832
f. TXT x39833
f. TXT x39834
f. TXT x39835
f. TXT x39836
f. TXT x39837
f. TXT x39838
f. TXT x39839
f. TXT x39840
f. TXT x39841
f. TXT x39842
f. TXT x39843
f. TXT x39844
f. TXT x39845
f. TXT x39846
f. TXT x39847
f. TXT x39848
f. TXT x39849
f. TXT x39850
f. TXT x39851
f. TXT x39852
f. TXT x39853
f. TXT x39854
f. TXT x39855
f. TXT x39856
f. TXT x39857
f. TXT x39858
f. TXT x39859
f. TXT x39860
f. TXT x39861
f. TXT x39862
f. TXT x39863
f. TXT x39864
f. TXT x39865
f. TXT x39866
f. TXT x39867
f. TXT x39868
f. TXT x39869
f. TXT x39870
f. TXT x39871
0x* A 0yc xy*0
f. TXT x39873
f. TXT x39874
f. TXT x39875
f. TXT x39876
f. TXT x39877
f. TXT x39878
f. TXT x39879
f. TXT x39880
f. TXT x39881
f. TXT x39882
f. TXT x39883
f. TXT x39884
f. TXT x39885
f. TXT x39886
f. TXT x39887
f. TXT x39888
f. TXT x39889
f. TXT x39890
f. TXT x39891
f. TXT x39892
f. TXT x39893
f. TXT x39894
f. TXT x39895
f. TXT x39896
f. TXT x39897
f. TXT x39898
f. TXT x39899
f. TXT x39900
f. TXT x39901
f. TXT x39902
f. TXT x39903
f. TXT x39904
f. TXT x39905
f. TXT x39906
f. TXT x39907
f. TXT x39908
f. TXT x39909
f. TXT x39910
f. TXT x39911
f. TXT x39912
f. TXT x39913
f. TXT x39914
f. TXT x39915
f. TXT x39916
f. TXT x39917
f. TXT x39918
f. TXT x39919
f. TXT x39920
f. TXT x39921
f. TXT x39922
f. TXT x39923
f. TXT x39924
f. TXT x39925
f. TXT x39926
f. TXT x39927
f. TXT x39928
f. TXT x39929
f. TXT x39930
f. TXT x39931
f. TXT x39932
f. TXT x39933
f. TXT x39934
f. TXT x39935

f. TXT x39937
f. TXT x39938
f. TXT x39939
f. TXT x39940
f. TXT x39941
f. TXT x39942
f. TXT x39943
f. TXT x39944
f. TXT x39945
f. TXT x39946
f. TXT x39947
f. TXT x39948
f. TXT x39949
f. TXT x39950
f. TXT x39951
f. TXT x39952
f. TXT x39953
f. TXT x39954
f. TXT x39955
f. TXT x39956
f. TXT x39957
f. TXT x39958
f. TXT x39959
f. TXT x39960
f. TXT x39961
f. TXT x39962
f. TXT x39963
f. TXT x39964
f. TXT x39965
f. TXT x39966
f. TXT x39967
f. TXT x39968
f. TXT x39969
f. TXT x39970
f. TXT x39971
f. TXT x39972
f. TXT x39973
f. TXT x39974
f. TXT x39975
f. TXT x39976
f. TXT x39977
f. TXT x39978
f. TXT x39979
f. TXT x39980
f. TXT x39981
f. TXT x39982
f. TXT x39983
f. TXT x39984
f. TXT x39985
f. TXT x39986
f. TXT x39987
f. TXT x39988
f. TXT x39989
f. TXT x39990
f. TXT x39991
f. TXT x39992
f. TXT x39993
f. TXT x39994
f. TXT x39995
f. TXT x39996
f. TXT x39997
f. TXT x39998
f. TXT x39999
$TTL 1
f. TXT x40001
f. TXT x40002
f. TXT x40003
f. TXT x40004
f. TXT x40005
f. TXT x40006
f. TXT x40007
f. TXT x40008
f. TXT x40009
f. TXT x40010
f. TXT x40011
f. TXT x40012
f. TXT x40013
f. TXT x40014
f. TXT x40015
f. TXT x40016
f. TXT x40017
f. TXT x40018
f. TXT x40019
f. TXT x40020
f. TXT x40021
f. TXT x40022
f. TXT x40023
f. TXT x40024
f. TXT x40025
f. TXT x40026
f. TXT x40027
f. TXT x40028
f. TXT x40029
f. TXT x40030
f. TXT x40031
f. TXT x40032
f. TXT x40033
f. TXT x40034
f. TXT x40035
f. TXT x40036
f. TXT x40037
f. TXT x40038
f. TXT x40039
f. TXT x40040
f. TXT x40041
f. TXT x40042
f. TXT x40043
f. TXT x40044
f. TXT x40045
f. TXT x40046
f. TXT x40047
f. TXT x40048
f. TXT x40049
f. TXT x40050
f. TXT x40051
f. TXT x40052
f. TXT x40053
f. TXT x40054
f. TXT x40055
f. TXT x40056
f. TXT x40057
f. TXT x40058
f. TXT x40059
f. TXT x40060
f. TXT x40061
f. TXT x40062
f. TXT x40063
zc0 NS zby
f. TXT x40065
f. TXT x40066
f. TXT x40067
f. TXT x40068
f. TXT x40069
f. TXT x40070
f. TXT x40071
f. TXT x40072
f. TXT x40073
f. TXT x40074
f. TXT x40075
f. TXT x40076
f. TXT x40077
f. TXT x40078
f. TXT x40079
f. TXT x40080
f. TXT x40081
f. TXT x40082
f. TXT x40083
f. TXT x40084
f. TXT x40085
f. TXT x40086
f. TXT x40087
f. TXT x40088
f. TXT x40089
f. TXT x40090
f. TXT x40091
f. TXT x40092
f. TXT x40093
f. TXT x40094
f. TXT x40095
f. TXT x40096
f. TXT x40097
f. TXT x40098
f. TXT x40099
f. TXT x40100
f. TXT x40101
f. TXT x40102
f. TXT x40103
f. TXT x40104
f. TXT x40105
f. TXT x40106
f. TXT x40107
f. TXT x40108
f. TXT x40109
f. TXT x40110
f. TXT x40111
f. TXT x40112
f. TXT x40113
f. TXT x40114
f. TXT x40115
f. TXT x40116
f. TXT x40117
f. TXT x40118
f. TXT x40119
f. TXT x40120
f. TXT x40121
f. TXT x40122
f. TXT x40123
f. TXT x40124
f. TXT x40125
f. TXT x40126
f. TXT x40127
aaaa TXT y *ba c0bb
f. TXT x40129
f. TXT x40130
f. TXT x40131
f. TXT x40132
f. TXT x40133
f. TXT x40134
f. TXT x40135
f. TXT x40136
f. TXT x40137
f. TXT x40138
f. TXT x40139
f. TXT x40140
f. TXT x40141
f. TXT x40142
f. TXT x40143
f. TXT x40144
f. TXT x40145
f. TXT x40146
f. TXT x40147
f. TXT x40148
f. TXT x40149
f. TXT x40150
f. TXT x40151
f. TXT x40152
f. TXT x40153
f. TXT x40154
f. TXT x40155
f. TXT x40156
f. TXT x40157
f. TXT x40158
f. TXT x40159
f. TXT x40160
f. TXT x40161
f. TXT x40162
f. TXT x40163
f. TXT x40164
f. TXT x40165
f. TXT x40166
f. TXT x40167
f. TXT x40168
f. TXT x40169
f. TXT x40170
f. TXT x40171
f. TXT x40172
f. TXT x40173
f. TXT x40174
f. TXT x40175
f. TXT x40176
f. TXT x40177
f. TXT x40178
f. TXT x40179
f. TXT x40180
f. TXT x40181
f. TXT x40182
f. TXT x40183
f. TXT x40184
f. TXT x40185
f. TXT x40186
f. TXT x40187
f. TXT x40188
f. TXT x40189
f. TXT x40190
f. TXT x40191
x-bx. TXT ay*y z cb
f. TXT x40193
f. TXT x40194
f. TXT x40195
f. TXT x40196
f. TXT x40197
f. TXT x40198
f. TXT x40199
f. TXT x40200
f. TXT x40201
f. TXT x40202
f. TXT x40203
f. TXT x40204
f. TXT x40205
f. TXT x40206
f. TXT x40207
f. TXT x40208
f. TXT x40209
f. TXT x40210
f. TXT x40211
f. TXT x40212
f. TXT x40213
f. TXT x40214
f. TXT x40215
f. TXT x40216
f. TXT x40217
f. TXT x40218
f. TXT x40219
f. TXT x40220
f. TXT x40221
f. TXT x40222
f. TXT x40223
f. TXT x40224
f. TXT x40225
f. TXT x40226
f. TXT x40227
f. TXT x40228
f. TXT x40229
f. TXT x40230
f. TXT x40231
f. TXT x40232
f. TXT x40233
f. TXT x40234
f. TXT x40235
f. TXT x40236
f. TXT x40237
f. TXT x40238
f. TXT x40239
f. TXT x40240
f. TXT x40241
f. TXT x40242
f. TXT x40243
f. TXT x40244
f. TXT x40245
f. TXT x40246
f. TXT x40247
f. TXT x40248
f. TXT x40249
f. TXT x40250
f. TXT x40251
f. TXT x40252
f. TXT x40253
f. TXT x40254
f. TXT x40255
x0y. NS xx c*
f. TXT x40257
f. TXT x40258
f. TXT x40259
f. TXT x40260
f. TXT x40261
f. TXT x40262
f. TXT x40263
f. TXT x40264
f. TXT x40265
f. TXT x40266
f. TXT x40267
f. TXT x40268
f. TXT x40269
f. TXT x40270
f. TXT x40271
f. TXT x40272
f. TXT x40273
f. TXT x40274
f. TXT x40275
f. TXT x40276
f. TXT x40277
f. TXT x40278
f. TXT x40279
f. TXT x40280
f. TXT x40281
f. TXT x40282
f. TXT x40283
f. TXT x40284
f. TXT x40285
f. TXT x40286
f. TXT x40287
f. TXT x40288
f. TXT x40289
f. TXT x40290
f. TXT x40291
f. TXT x40292
f. TXT x40293
f. TXT x40294
f. TXT x40295
f. TXT x40296
f. TXT x40297
f. TXT x40298
f. TXT x40299
f. TXT x40300
f. TXT x40301
f. TXT x40302
f. TXT x40303
f. TXT x40304
f. TXT x40305
f. TXT x40306
f. TXT x40307
f. TXT x40308
f. TXT x40309
f. TXT x40310
f. TXT x40311
f. TXT x40312
f. TXT x40313
f. TXT x40314
f. TXT x40315
f. TXT x40316
f. TXT x40317
f. TXT x40318
f. TXT x40319
**0 A 0 y
f. TXT x40321
f. TXT x40322
f. TXT x40323
f. TXT x40324
f. TXT x40325
f. TXT x40326
f. TXT x40327
f. TXT x40328
f. TXT x40329
f. TXT x40330
f. TXT x40331
f. TXT x40332
f. TXT x40333
f. TXT x40334
f. TXT x40335
f. TXT x40336
f. TXT x40337
f. TXT x40338
f. TXT x40339
f. TXT x40340
f. TXT x40341
f. TXT x40342
f. TXT x40343
f. TXT x40344
f. TXT x40345
f. TXT x40346
f. TXT x40347
f. TXT x40348
f. TXT x40349
f. TXT x40350
f. TXT x40351
f. TXT x40352
f. TXT x40353
f. TXT x40354
f. TXT x40355
f. TXT x40356
f. TXT x40357
f. TXT x40358
f. TXT x40359
f. TXT x40360
f. TXT x40361
f. TXT x40362
f. TXT x40363
f. TXT x40364
f. TXT x40365
f. TXT x40366
f. TXT x40367
f. TXT x40368
f. TXT x40369
f. TXT x40370
f. TXT x40371
f. TXT x40372
f. TXT x40373
f. TXT x40374
f. TXT x40375
f. TXT x40376
f. TXT x40377
f. TXT x40378
f. TXT x40379
f. TXT x40380
f. TXT x40381
f. TXT x40382
f. TXT x40383
@ NS 0b0* -z-*
f. TXT x40385
f. TXT x40386
f. TXT x40387
f. TXT x40388
f. TXT x40389
f. TXT x40390
f. TXT x40391
f. TXT x40392
f. TXT x40393
f. TXT x40394
f. TXT x40395
f. TXT x40396
f. TXT x40397
f. TXT x40398
f. TXT x40399
f. TXT x40400
f. TXT x40401
f. TXT x40402
f. TXT x40403
f. TXT x40404
f. TXT x40405
f. TXT x40406
f. TXT x40407
f. TXT x40408
f. TXT x40409
f. TXT x40410
f. TXT x40411
f. TXT x40412
f. TXT x40413
f. TXT x40414
f. TXT x40415
f. TXT x40416
f. TXT x40417
f. TXT x40418
f. TXT x40419
f. TXT x40420
f. TXT x40421
f. TXT x40422
f. TXT x40423
f. TXT x40424
f. TXT x40425
f. TXT x40426
f. TXT x40427
f. TXT x40428
f. TXT x40429
f. TXT x40430
f. TXT x40431
f. TXT x40432
f. TXT x40433
f. TXT x40434
f. TXT x40435
f. TXT x40436
f. TXT x40437
f. TXT x40438
f. TXT x40439
f. TXT x40440
f. TXT x40441
f. TXT x40442
f. TXT x40443
f. TXT x40444
f. TXT x40445
f. TXT x40446
f. TXT x40447
 A -c bx- *
f. TXT x40449
f. TXT x40450
f. TXT x40451
f. TXT x40452
f. TXT x40453
f. TXT x40454
f. TXT x40455
f. TXT x40456
f. TXT x40457
f. TXT x40458
f. TXT x40459
f. TXT x40460
f. TXT x40461
f. TXT x40462
f. TXT x40463
f. TXT x40464
f. TXT x40465
f. TXT x40466
f. TXT x40467
f. TXT x40468
f. TXT x40469
f. TXT x40470
f. TXT x40471
f. TXT x40472
f. TXT x40473
f. TXT x40474
f. TXT x40475
f. TXT x40476
f. TXT x40477
f. TXT x40478
f. TXT x40479
f. TXT x40480
f. TXT x40481
f. TXT x40482
f. TXT x40483
f. TXT x40484
f. TXT x40485
f. TXT x40486
f. TXT x40487
f. TXT x40488
f. TXT x40489
f. TXT x40490
f. TXT x40491
f. TXT x40492
f. TXT x40493
f. TXT x40494
f. TXT x40495
f. TXT x40496
f. TXT x40497
f. TXT x40498
f. TXT x40499
f. TXT x40500
f. TXT x40501
f. TXT x40502
f. TXT x40503
f. TXT x40504
f. TXT x40505
f. TXT x40506
f. TXT x40507
f. TXT x40508
f. TXT x40509
f. TXT x40510
f. TXT x40511
0ba A y0 b
f. TXT x40513
f. TXT x40514
f. TXT x40515
f. TXT x40516
f. TXT x40517
f. TXT x40518
f. TXT x40519
f. TXT x40520
f. TXT x40521
f. TXT x40522
f. TXT x40523
f. TXT x40524
f. TXT x40525
f. TXT x40526
f. TXT x40527
f. TXT x40528
f. TXT x40529
f. TXT x40530
f. TXT x40531
f. TXT x40532
f. TXT x40533
f. TXT x40534
f. TXT x40535
f. TXT x40536
f. TXT x40537
f. TXT x40538
f. TXT x40539
f. TXT x40540
f. TXT x40541
f. TXT x40542
f. TXT x40543
f. TXT x40544
f. TXT x40545
f. TXT x40546
f. TXT x40547
f. TXT x40548
f. TXT x40549
f. TXT x40550
f. TXT x40551
f. TXT x40552
f. TXT x40553
f. TXT x40554
f. TXT x40555
f. TXT x40556
f. TXT x40557
f. TXT x40558
f. TXT x40559
f. TXT x40560
f. TXT x40561
f. TXT x40562
f. TXT x40563
f. TXT x40564
f. TXT x40565
f. TXT x40566
f. TXT x40567
f. TXT x40568
f. TXT x40569
f. TXT x40570
f. TXT x40571
f. TXT x40572
f. TXT x40573
f. TXT x40574
f. TXT x40575
c. NS a
f. TXT x40577
f. TXT x40578
f. TXT x40579
f. TXT x40580
f. TXT x40581
f. TXT x40582
f. TXT x40583
f. TXT x40584
f. TXT x40585
f. TXT x40586
f. TXT x40587
f. TXT x40588
f. TXT x40589
f. TXT x40590
f. TXT x40591
f. TXT x40592
f. TXT x40593
f. TXT x40594
f. TXT x40595
f. TXT x40596
f. TXT x40597
f. TXT x40598
f. TXT x40599
f. TXT x40600
f. TXT x40601
f. TXT x40602
f. TXT x40603
f. TXT x40604
f. TXT x40605
f. TXT x40606
f. TXT x40607
f. TXT x40608
f. TXT x40609
f. TXT x40610
f. TXT x40611
f. TXT x40612
f. TXT x40613
f. TXT x40614
f. TXT x40615
f. TXT x40616
f. TXT x40617
f. TXT x40618
f. TXT x40619
f. TXT x40620
f. TXT x40621
f. TXT x40622
f. TXT x40623
f. TXT x40624
f. TXT x40625
f. TXT x40626
f. TXT x40627
f. TXT x40628
f. TXT x40629
f. TXT x40630
f. TXT x40631
f. TXT x40632
f. TXT x40633
f. TXT x40634
f. TXT x40635
f. TXT x40636
f. TXT x40637
f. TXT x40638
f. TXT x40639
; zz0
f. TXT x40641
f. TXT x40642
f. TXT x40643
f. TXT x40644
f. TXT x40645
f. TXT x40646
f. TXT x40647
f. TXT x40648
f. TXT x40649
f. TXT x40650
f. TXT x40651
f. TXT x40652
f. TXT x40653
f. TXT x40654
f. TXT x40655
f. TXT x40656
f. TXT x40657
f. TXT x40658
f. TXT x40659
f. TXT x40660
f. TXT x40661
f. TXT x40662
f. TXT x40663
f. TXT x40664
f. TXT x40665
f. TXT x40666
f. TXT x40667
f. TXT x40668
f. TXT x40669
f. TXT x40670
f. TXT x40671
f. TXT x40672
f. TXT x40673
f. TXT x40674
f. TXT x40675
f. TXT x40676
f. TXT x40677
f. TXT x40678
f. TXT x40679
f. TXT x40680
f. TXT x40681
f. TXT x40682
f. TXT x40683
f. TXT x40684
f. TXT x40685
f. TXT x40686
f. TXT x40687
f. TXT x40688
f. TXT x40689
f. TXT x40690
f. TXT x40691
f. TXT x40692
f. TXT x40693
f. TXT x40694
f. TXT x40695
f. TXT x40696
f. TXT x40697
f. TXT x40698
f. TXT x40699
f. TXT x40700
f. TXT x40701
f. TXT x40702
f. TXT x40703
@ A ay ay vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
f. TXT x40705
f. TXT x40706
f. TXT x40707
f. TXT x40708
f. TXT x40709
f. TXT x40710
f. TXT x40711
f. TXT x40712
f. TXT x40713
f. TXT x40714
f. TXT x40715
f. TXT x40716
f. TXT x40717
f. TXT x40718
f. TXT x40719
f. TXT x40720
f. TXT x40721
f. TXT x40722
f. TXT x40723
f. TXT x40724
f. TXT x40725
f. TXT x40726
f. TXT x40727
f. TXT x40728
f. TXT x40729
f. TXT x40730
f. TXT x40731
f. TXT x40732
f. TXT x40733
f. TXT x40734
f. TXT x40735
f. TXT x40736
f. TXT x40737
f. TXT x40738
f. TXT x40739
f. TXT x40740
f. TXT x40741
f. TXT x40742
f. TXT x40743
f. TXT x40744
f. TXT x40745
f. TXT x40746
f. TXT x40747
f. TXT x40748
f. TXT x40749
f. TXT x40750
f. TXT x40751
f. TXT x40752
f. TXT x40753
f. TXT x40754
f. TXT x40755
f. TXT x40756
f. TXT x40757
f. TXT x40758
f. TXT x40759
f. TXT x40760
f. TXT x40761
f. TXT x40762
f. TXT x40763
f. TXT x40764
f. TXT x40765
f. TXT x40766
f. TXT x40767
$TTL 1
f. TXT x40769
f. TXT x40770
f. TXT x40771
f. TXT x40772
f. TXT x40773
f. TXT x40774
f. TXT x40775
f. TXT x40776
f. TXT x40777
f. TXT x40778
f. TXT x40779
f. TXT x40780
f. TXT x40781
f. TXT x40782
f. TXT x40783
f. TXT x40784
f. TXT x40785
f. TXT x40786
f. TXT x40787
f. TXT x40788
f. TXT x40789
f. TXT x40790
f. TXT x40791
f. TXT x40792
f. TXT x40793
f. TXT x40794
f. TXT x40795
f. TXT x40796
f. TXT x40797
f. TXT x40798
f. TXT x40799
f. TXT x40800
f. TXT x40801
f. TXT x40802
f. TXT x40803
f. TXT x40804
f. TXT x40805
f. TXT x40806
f. TXT x40807
f. TXT x40808
f. TXT x40809
f. TXT x40810
f. TXT x40811
f. TXT x40812
f. TXT x40813
f. TXT x40814
f. TXT x40815
f. TXT x40816
f. TXT x40817
f. TXT x40818
f. TXT x40819
f. TXT x40820
f. TXT x40821
f. TXT x40822
f. TXT x40823
f. TXT x40824
f. TXT x40825
f. TXT x40826
f. TXT x40827
f. TXT x40828
f. TXT x40829
f. TXT x40830
f. TXT x40831
-. TXT y a- za
f. TXT x40833
f. TXT x40834
f. TXT x40835
f. TXT x40836
f. TXT x40837
f. TXT x40838
f. TXT x40839
f. TXT x40840
f. TXT x40841
f. TXT x40842
f. TXT x40843
f. TXT x40844
f. TXT x40845
f. TXT x40846
f. TXT x40847
f. TXT x40848
f. TXT x40849
f. TXT x40850
f. TXT x40851
f. TXT x40852
f. TXT x40853
f. TXT x40854
f. TXT x40855
f. TXT x40856
f. TXT x40857
f. TXT x40858
f. TXT x40859
f. TXT x40860
f. TXT x40861
f. TXT x40862
f. TXT x40863
f. TXT x40864
f. TXT x40865
f. TXT x40866
f. TXT x40867
f. TXT x40868
f. TXT x40869
f. TXT x40870
f. TXT x40871
f. TXT x40872
f. TXT x40873
f. TXT x40874
f. TXT x40875
f. TXT x40876
f. TXT x40877
f. TXT x40878
f. TXT x40879
f. TXT x40880
f. TXT x40881
f. TXT x40882
f. TXT x40883
f. TXT x40884
f. TXT x40885
f. TXT x40886
f. TXT x40887
f. TXT x40888
f. TXT x40889
f. TXT x40890
f. TXT x40891
f. TXT x40892
f. TXT x40893
f. TXT x40894
f. TXT x40895
 NS -z b 0
f. TXT x40897
f. TXT x40898
f. TXT x40899
f. TXT x40900
f. TXT x40901
f. TXT x40902
f. TXT x40903
f. TXT x40904
f. TXT x40905
f. TXT x40906
f. TXT x40907
f. TXT x40908
f. TXT x40909
f. TXT x40910
f. TXT x40911
f. TXT x40912
f. TXT x40913
f. TXT x40914
f. TXT x40915
f. TXT x40916
f. TXT x40917
f. TXT x40918
f. TXT x40919
f. TXT x40920
f. TXT x40921
f. TXT x40922
f. TXT x40923
f. TXT x40924
f. TXT x40925
f. TXT x40926
f. TXT x40927
f. TXT x40928
f. TXT x40929
f. TXT x40930
f. TXT x40931
f. TXT x40932
f. TXT x40933
f. TXT x40934
f. TXT x40935
f. TXT x40936
f. TXT x40937
f. TXT x40938
f. TXT x40939
f. TXT x40940
f. TXT x40941
f. TXT x40942
f. TXT x40943
f. TXT x40944
f. TXT x40945
f. TXT x40946
f. TXT x40947
f. TXT x40948
f. TXT x40949
f. TXT x40950
f. TXT x40951
f. TXT x40952
f. TXT x40953
f. TXT x40954
f. TXT x40955
f. TXT x40956
f. TXT x40957
f. TXT x40958
f. TXT x40959
$TTL 1
f. TXT x40961
f. TXT x40962
f. TXT x40963
f. TXT x40964
f. TXT x40965
f. TXT x40966
f. TXT x40967
f. TXT x40968
f. TXT x40969
f. TXT x40970
f. TXT x40971
f. TXT x40972
f. TXT x40973
f. TXT x40974
f. TXT x40975
f. TXT x40976
f. TXT x40977
f. TXT x40978
f. TXT x40979
f. TXT x40980
f. TXT x40981
f. TXT x40982
f. TXT x40983
f. TXT x40984
f. TXT x40985
f. TXT x40986
f. TXT x40987
f. TXT x40988
f. TXT x40989
f. TXT x40990
f. TXT x40991
f. TXT x40992
f. TXT x40993
f. TXT x40994
f. TXT x40995
f. TXT x40996
f. TXT x40997
f. TXT x40998
f. TXT x40999
f. TXT x41000
f. TXT x41001
f. TXT x41002
f. TXT x41003
f. TXT x41004
f. TXT x41005
f. TXT x41006
f. TXT x41007
f. TXT x41008
f. TXT x41009
f. TXT x41010
f. TXT x41011
f. TXT x41012
f. TXT x41013
f. TXT x41014
f. TXT x41015
f. TXT x41016
f. TXT x41017
f. TXT x41018
f. TXT x41019
f. TXT x41020
f. TXT x41021
f. TXT x41022
f. TXT x41023
@ A b * bxc*
f. TXT x41025
f. TXT x41026
f. TXT x41027
f. TXT x41028
f. TXT x41029
f. TXT x41030
f. TXT x41031
f. TXT x41032
f. TXT x41033
f. TXT x41034
f. TXT x41035
f. TXT x41036
f. TXT x41037
f. TXT x41038
f. TXT x41039
f. TXT x41040
f. TXT x41041
f. TXT x41042
f. TXT x41043
f. TXT x41044
f. TXT x41045
f. TXT x41046
f. TXT x41047
f. TXT x41048
f. TXT x41049
f. TXT x41050
f. TXT x41051
f. TXT x41052
f. TXT x41053
f. TXT x41054
f. TXT x41055
f. TXT x41056
f. TXT x41057
f. TXT x41058
f. TXT x41059
f. TXT x41060
f. TXT x41061
f. TXT x41062
f. TXT x41063
f. TXT x41064
f. TXT x41065
f. TXT x41066
f. TXT x41067
f. TXT x41068
f. TXT x41069
f. TXT x41070
f. TXT x41071
f. TXT x41072
f. TXT x41073
f. TXT x41074
f. TXT x41075
f. TXT x41076
f. TXT x41077
f. TXT x41078
f. TXT x41079
f. TXT x41080
f. TXT x41081
f. TXT x41082
f. TXT x41083
f. TXT x41084
f. TXT x41085
f. TXT x41086
f. TXT x41087
$ORIGIN -0.z.
f. TXT x41089
f. TXT x41090
f. TXT x41091
f. TXT x41092
f. TXT x41093
f. TXT x41094
f. TXT x41095
f. TXT x41096
f. TXT x41097
f. TXT x41098
f. TXT x41099
f. TXT x41100
f. TXT x41101
f. TXT x41102
f. TXT x41103
f. TXT x41104
f. TXT x41105
f. TXT x41106
f. TXT x41107
f. TXT x41108
f. TXT x41109
f. TXT x41110
f. TXT x41111
f. TXT x41112
f. TXT x41113
f. TXT x41114
f. TXT x41115
f. TXT x41116
f. TXT x41117
f. TXT x41118
f. TXT x41119
f. TXT x41120
f. TXT x41121
f. TXT x41122
f. TXT x41123
f. TXT x41124
f. TXT x41125
f. TXT x41126
f. TXT x41127
f. TXT x41128
f. TXT x41129
f. TXT x41130
f. TXT x41131
f. TXT x41132
f. TXT x41133
f. TXT x41134
f. TXT x41135
f. TXT x41136
f. TXT x41137
f. TXT x41138
f. TXT x41139
f. TXT x41140
f. TXT x41141
f. TXT x41142
f. TXT x41143
f. TXT x41144
f. TXT x41145
f. TXT x41146
f. TXT x41147
f. TXT x41148
f. TXT x41149
f. TXT x41150
f. TXT x41151
-aa.x. NS aza bb-0 y
f. TXT x41153
f. TXT x41154
f. TXT x41155
f. TXT x41156
f. TXT x41157
f. TXT x41158
f. TXT x41159
f. TXT x41160
f. TXT x41161
f. TXT x41162
f. TXT x41163
f. TXT x41164
f. TXT x41165
f. TXT x41166
f. TXT x41167
f. TXT x41168
f. TXT x41169
f. TXT x41170
f. TXT x41171
f. TXT x41172
f. TXT x41173
f. TXT x41174
f. TXT x41175
f. TXT x41176
f. TXT x41177
f. TXT x41178
f. TXT x41179
f. TXT x41180
f. TXT x41181
f. TXT x41182
f. TXT x41183
f. TXT x41184
f. TXT x41185
f. TXT x41186
f. TXT x41187
f. TXT x41188
f. TXT x41189
f. TXT x41190
f. TXT x41191
f. TXT x41192
f. TXT x41193
f. TXT x41194
f. TXT x41195
f. TXT x41196
f. TXT x41197
f. TXT x41198
f. TXT x41199
f. TXT x41200
f. TXT x41201
f. TXT x41202
f. TXT x41203
f. TXT x41204
f. TXT x41205
f. TXT x41206
f. TXT x41207
f. TXT x41208
f. TXT x41209
f. TXT x41210
f. TXT x41211
f. TXT x41212
f. TXT x41213
f. TXT x41214
f. TXT x41215
@ A *
f. TXT x41217
f. TXT x41218
f. TXT x41219
f. TXT x41220
f. TXT x41221
f. TXT x41222
f. TXT x41223
f. TXT x41224
f. TXT x41225
f. TXT x41226
f. TXT x41227
f. TXT x41228
f. TXT x41229
f. TXT x41230
f. TXT x41231
f. TXT x41232
f. TXT x41233
f. TXT x41234
f. TXT x41235
f. TXT x41236
f. TXT x41237
f. TXT x41238
f. TXT x41239
f. TXT x41240
f. TXT x41241
f. TXT x41242
f. TXT x41243
f. TXT x41244
f. TXT x41245
f. TXT x41246
f. TXT x41247
f. TXT x41248
f. TXT x41249
f. TXT x41250
f. TXT x41251
f. TXT x41252
f. TXT x41253
f. TXT x41254
f. TXT x41255
f. TXT x41256
f. TXT x41257
f. TXT x41258
f. TXT x41259
f. TXT x41260
f. TXT x41261
f. TXT x41262
f. TXT x41263
f. TXT x41264
f. TXT x41265
f. TXT x41266
f. TXT x41267
f. TXT x41268
f. TXT x41269
f. TXT x41270
f. TXT x41271
f. TXT x41272
f. TXT x41273
f. TXT x41274
f. TXT x41275
f. TXT x41276
f. TXT x41277
f. TXT x41278
f. TXT x41279
y. NS y abx* ayz
f. TXT x41281
f. TXT x41282
f. TXT x41283
f. TXT x41284
f. TXT x41285
f. TXT x41286
f. TXT x41287
f. TXT x41288
f. TXT x41289
f. TXT x41290
f. TXT x41291
f. TXT x41292
f. TXT x41293
f. TXT x41294
f. TXT x41295
f. TXT x41296
f. TXT x41297
f. TXT x41298
f. TXT x41299
f. TXT x41300
f. TXT x41301
f. TXT x41302
f. TXT x41303
f. TXT x41304
f. TXT x41305
f. TXT x41306
f. TXT x41307
f. TXT x41308
f. TXT x41309
f. TXT x41310
f. TXT x41311
f. TXT x41312
f. TXT x41313
f. TXT x41314
f. TXT x41315
f. TXT x41316
f. TXT x41317
f. TXT x41318
f. TXT x41319
f. TXT x41320
f. TXT x41321
f. TXT x41322
f. TXT x41323
f. TXT x41324
f. TXT x41325
f. TXT x41326
f. TXT x41327
f. TXT x41328
f. TXT x41329
f. TXT x41330
f. TXT x41331
f. TXT x41332
f. TXT x41333
f. TXT x41334
f. TXT x41335
f. TXT x41336
f. TXT x41337
f. TXT x41338
f. TXT x41339
f. TXT x41340
f. TXT x41341
f. TXT x41342
f. TXT x41343
$TTL 1
f. TXT x41345
f. TXT x41346
f. TXT x41347
f. TXT x41348
f. TXT x41349
f. TXT x41350
f. TXT x41351
f. TXT x41352
f. TXT x41353
f. TXT x41354
f. TXT x41355
f. TXT x41356
f. TXT x41357
f. TXT x41358
f. TXT x41359
f. TXT x41360
f. TXT x41361
f. TXT x41362
f. TXT x41363
f. TXT x41364
f. TXT x41365
f. TXT x41366
f. TXT x41367
f. TXT x41368
f. TXT x41369
f. TXT x41370
f. TXT x41371
f. TXT x41372
f. TXT x41373
f. TXT x41374
f. TXT x41375
f. TXT x41376
f. TXT x41377
f. TXT x41378
f. TXT x41379
f. TXT x41380
f. TXT x41381
f. TXT x41382
f. TXT x41383
f. TXT x41384
f. TXT x41385
f. TXT x41386
f. TXT x41387
f. TXT x41388
f. TXT x41389
f. TXT x41390
f. TXT x41391
f. TXT x41392
f. TXT x41393
f. TXT x41394
f. TXT x41395
f. TXT x41396
f. TXT x41397
f. TXT x41398
f. TXT x41399
f. TXT x41400
f. TXT x41401
f. TXT x41402
f. TXT x41403
f. TXT x41404
f. TXT x41405
f. TXT x41406
f. TXT x41407
; ay
f. TXT x41409
f. TXT x41410
f. TXT x41411
f. TXT x41412
f. TXT x41413
f. TXT x41414
f. TXT x41415
f. TXT x41416
f. TXT x41417
f. TXT x41418
f. TXT x41419
f. TXT x41420
f. TXT x41421
f. TXT x41422
f. TXT x41423
f. TXT x41424
f. TXT x41425
f. TXT x41426
f. TXT x41427
f. TXT x41428
f. TXT x41429
f. TXT x41430
f. TXT x41431
f. TXT x41432
f. TXT x41433
f. TXT x41434
f. TXT x41435
f. TXT x41436
f. TXT x41437
f. TXT x41438
f. TXT x41439
f. TXT x41440
f. TXT x41441
f. TXT x41442
f. TXT x41443
f. TXT x41444
f. TXT x41445
f. TXT x41446
f. TXT x41447
f. TXT x41448
f. TXT x41449
f. TXT x41450
f. TXT x41451
f. TXT x41452
f. TXT x41453
f. TXT x41454
f. TXT x41455
f. TXT x41456
f. TXT x41457
f. TXT x41458
f. TXT x41459
f. TXT x41460
f. TXT x41461
f. TXT x41462
f. TXT x41463
f. TXT x41464
f. TXT x41465
f. TXT x41466
f. TXT x41467
f. TXT x41468
f. TXT x41469
f. TXT x41470
f. TXT x41471
b*aa.b. NS z-
f. TXT x41473
f. TXT x41474
f. TXT x41475
f. TXT x41476
f. TXT x41477
f. TXT x41478
f. TXT x41479
f. TXT x41480
f. TXT x41481
f. TXT x41482
f. TXT x41483
f. TXT x41484
f. TXT x41485
f. TXT x41486
f. TXT x41487
f. TXT x41488
f. TXT x41489
f. TXT x41490
f. TXT x41491
f. TXT x41492
f. TXT x41493
f. TXT x41494
f. TXT x41495
f. TXT x41496
f. TXT x41497
f. TXT x41498
f. TXT x41499
f. TXT x41500
f. TXT x41501
f. TXT x41502
f. TXT x41503
f. TXT x41504
f. TXT x41505
f. TXT x41506
f. TXT x41507
f. TXT x41508
f. TXT x41509
f. TXT x41510
f. TXT x41511
f. TXT x41512
f. TXT x41513
f. TXT x41514
f. TXT x41515
f. TXT x41516
f. TXT x41517
f. TXT x41518
f. TXT x41519
f. TXT x41520
f. TXT x41521
f. TXT x41522
f. TXT x41523
f. TXT x41524
f. TXT x41525
f. TXT x41526
f. TXT x41527
f. TXT x41528
f. TXT x41529
f. TXT x41530
f. TXT x41531
f. TXT x41532
f. TXT x41533
f. TXT x41534
f. TXT x41535
$TTL 4294967295
f. TXT x41537
f. TXT x41538
f. TXT x41539
f. TXT x41540
f. TXT x41541
f. TXT x41542
f. TXT x41543
f. TXT x41544
f. TXT x41545
f. TXT x41546
f. TXT x41547
f. TXT x41548
f. TXT x41549
f. TXT x41550
f. TXT x41551
f. TXT x41552
f. TXT x41553
f. TXT x41554
f. TXT x41555
f. TXT x41556
f. TXT x41557
f. TXT x41558
f. TXT x41559
f. TXT x41560
f. TXT x41561
f. TXT x41562
f. TXT x41563
f. TXT x41564
f. TXT x41565
f. TXT x41566
f. TXT x41567
f. TXT x41568
f. TXT x41569
f. TXT x41570
f. TXT x41571
f. TXT x41572
f. TXT x41573
f. TXT x41574
f. TXT x41575
f. TXT x41576
f. TXT x41577
f. TXT x41578
f. TXT x41579
f. TXT x41580
f. TXT x41581
f. TXT x41582
f. TXT x41583
f. TXT x41584
f. TXT x41585
f. TXT x41586
f. TXT x41587
f. TXT x41588
f. TXT x41589
f. TXT x41590
f. TXT x41591
f. TXT x41592
f. TXT x41593
f. TXT x41594
f. TXT x41595
f. TXT x41596
f. TXT x41597
f. TXT x41598
f. TXT x41599
 TXT c- z00
f. TXT x41601
f. TXT x41602
f. TXT x41603
f. TXT x41604
f. TXT x41605
f. TXT x41606
f. TXT x41607
f. TXT x41608
f. TXT x41609
f. TXT x41610
f. TXT x41611
f. TXT x41612
f. TXT x41613
f. TXT x41614
f. TXT x41615
f. TXT x41616
f. TXT x41617
f. TXT x41618
f. TXT x41619
f. TXT x41620
f. TXT x41621
f. TXT x41622
f. TXT x41623
f. TXT x41624
f. TXT x41625
f. TXT x41626
f. TXT x41627
f. TXT x41628
f. TXT x41629
f. TXT x41630
f. TXT x41631
f. TXT x41632
f. TXT x41633
f. TXT x41634
f. TXT x41635
f. TXT x41636
f. TXT x41637
f. TXT x41638
f. TXT x41639
f. TXT x41640
f. TXT x41641
f. TXT x41642
f. TXT x41643
f. TXT x41644
f. TXT x41645
f. TXT x41646
f. TXT x41647
f. TXT x41648
f. TXT x41649
f. TXT x41650
f. TXT x41651
f. TXT x41652
f. TXT x41653
f. TXT x41654
f. TXT x41655
f. TXT x41656
f. TXT x41657
f. TXT x41658
f. TXT x41659
f. TXT x41660
f. TXT x41661
f. TXT x41662
f. TXT x41663
$TTL 7
f. TXT x41665
f. TXT x41666
f. TXT x41667
f. TXT x41668
f. TXT x41669
f. TXT x41670
f. TXT x41671
f. TXT x41672
f. TXT x41673
f. TXT x41674
f. TXT x41675
f. TXT x41676
f. TXT x41677
f. TXT x41678
f. TXT x41679
f. TXT x41680
f. TXT x41681
f. TXT x41682
f. TXT x41683
f. TXT x41684
f. TXT x41685
f. TXT x41686
f. TXT x41687
f. TXT x41688
f. TXT x41689
f. TXT x41690
f. TXT x41691
f. TXT x41692
f. TXT x41693
f. TXT x41694
f. TXT x41695
f. TXT x41696
f. TXT x41697
f. TXT x41698
f. TXT x41699
f. TXT x41700
f. TXT x41701
f. TXT x41702
f. TXT x41703
f. TXT x41704
f. TXT x41705
f. TXT x41706
f. TXT x41707
f. TXT x41708
f. TXT x41709
f. TXT x41710
f. TXT x41711
f. TXT x41712
f. TXT x41713
f. TXT x41714
f. TXT x41715
f. TXT x41716
f. TXT x41717
f. TXT x41718
f. TXT x41719
f. TXT x41720
f. TXT x41721
f. TXT x41722
f. TXT x41723
f. TXT x41724
f. TXT x41725
f. TXT x41726
f. TXT x41727
@ TXT a0cb
f. TXT x41729
f. TXT x41730
f. TXT x41731
f. TXT x41732
f. TXT x41733
f. TXT x41734
f. TXT x41735
f. TXT x41736
f. TXT x41737
f. TXT x41738
f. TXT x41739
f. TXT x41740
f. TXT x41741
f. TXT x41742
f. TXT x41743
f. TXT x41744
f. TXT x41745
f. TXT x41746
f. TXT x41747
f. TXT x41748
f. TXT x41749
f. TXT x41750
f. TXT x41751
f. TXT x41752
f. TXT x41753
f. TXT x41754
f. TXT x41755
f. TXT x41756
f. TXT x41757
f. TXT x41758
f. TXT x41759
f. TXT x41760
f. TXT x41761
f. TXT x41762
f. TXT x41763
f. TXT x41764
f. TXT x41765
f. TXT x41766
f. TXT x41767
f. TXT x41768
f. TXT x41769
f. TXT x41770
f. TXT x41771
f. TXT x41772
f. TXT x41773
f. TXT x41774
f. TXT x41775
f. TXT x41776
f. TXT x41777
f. TXT x41778
f. TXT x41779
f. TXT x41780
f. TXT x41781
f. TXT x41782
f. TXT x41783
f. TXT x41784
f. TXT x41785
f. TXT x41786
f. TXT x41787
f. TXT x41788
f. TXT x41789
f. TXT x41790
f. TXT x41791
$TTL 285
f. TXT x41793
f. TXT x41794
f. TXT x41795
f. TXT x41796
f. TXT x41797
f. TXT x41798
f. TXT x41799
f. TXT x41800
f. TXT x41801
f. TXT x41802
f. TXT x41803
f. TXT x41804
f. TXT x41805
f. TXT x41806
f. TXT x41807
f. TXT x41808
f. TXT x41809
f. TXT x41810
f. TXT x41811
f. TXT x41812
f. TXT x41813
f. TXT x41814
f. TXT x41815
f. TXT x41816
f. TXT x41817
f. TXT x41818
f. TXT x41819
f. TXT x41820
f. TXT x41821
f. TXT x41822
f. TXT x41823
f. TXT x41824
f. TXT x41825
f. TXT x41826
f. TXT x41827
f. TXT x41828
f. TXT x41829
f. TXT x41830
f. TXT x41831
f. TXT x41832
f. TXT x41833
f. TXT x41834
f. TXT x41835
f. TXT x41836
f. TXT x41837
f. TXT x41838
f. TXT x41839
f. TXT x41840
f. TXT x41841
f. TXT x41842
f. TXT x41843
f. TXT x41844
f. TXT x41845
f. TXT x41846
f. TXT x41847
f. TXT x41848
f. TXT x41849
f. TXT x41850
f. TXT x41851
f. TXT x41852
f. TXT x41853
f. TXT x41854
f. TXT x41855
-c-b. NS -x vvvvvvvvvvvvvvvvvvv 0xb
f. TXT x41857
f. TXT x41858
f. TXT x41859
f. TXT x41860
f. TXT x41861
f. TXT x41862
f. TXT x41863
f. TXT x41864
f. TXT x41865
f. TXT x41866
f. TXT x41867
f. TXT x41868
f. TXT x41869
f. TXT x41870
f. TXT x41871
f. TXT x41872
f. TXT x41873
f. TXT x41874
f. TXT x41875
f. TXT x41876
f. TXT x41877
f. TXT x41878
f. TXT x41879
f. TXT x41880
f. TXT x41881
f. TXT x41882
f. TXT x41883
f. TXT x41884
f. TXT x41885
f. TXT x41886
f. TXT x41887
f. TXT x41888
f. TXT x41889
f. TXT x41890
f. TXT x41891
f. TXT x41892
f. TXT x41893
f. TXT x41894
f. TXT x41895
f. TXT x41896
f. TXT x41897
f. TXT x41898
f. TXT x41899
f. TXT x41900
f. TXT x41901
f. TXT x41902
f. TXT x41903
f. TXT x41904
f. TXT x41905
f. TXT x41906
f. TXT x41907
f. TXT x41908
f. TXT x41909
f. TXT x41910
f. TXT x41911
f. TXT x41912
f. TXT x41913
f. TXT x41914
f. TXT x41915
f. TXT x41916
f. TXT x41917
f. TXT x41918
f. TXT x41919
@ A xa a-0x
f. TXT x41921
f. TXT x41922
f. TXT x41923
f. TXT x41924
f. TXT x41925
f. TXT x41926
f. TXT x41927
f. TXT x41928
f. TXT x41929
f. TXT x41930
f. TXT x41931
f. TXT x41932
f. TXT x41933
f. TXT x41934
f. TXT x41935
f. TXT x41936
f. TXT x41937
f. TXT x41938
f. TXT x41939
f. TXT x41940
f. TXT x41941
f. TXT x41942
f. TXT x41943
f. TXT x41944
f. TXT x41945
f. TXT x41946
f. TXT x41947
f. TXT x41948
f. TXT x41949
f. TXT x41950
f. TXT x41951
f. TXT x41952
f. TXT x41953
f. TXT x41954
f. TXT x41955
f. TXT x41956
f. TXT x41957
f. TXT x41958
f. TXT x41959
f. TXT x41960
f. TXT x41961
f. TXT x41962
f. TXT x41963
f. TXT x41964
f. TXT x41965
f. TXT x41966
f. TXT x41967
f. TXT x41968
f. TXT x41969
f. TXT x41970
f. TXT x41971
f. TXT x41972
f. TXT x41973
f. TXT x41974
f. TXT x41975
f. TXT x41976
f. TXT x41977
f. TXT x41978
f. TXT x41979
f. TXT x41980
f. TXT x41981
f. TXT x41982
f. TXT x41983
-ba* A yx
f. TXT x41985
f. TXT x41986
f. TXT x41987
f. TXT x41988
f. TXT x41989
f. TXT x41990
f. TXT x41991
f. TXT x41992
f. TXT x41993
f. TXT x41994
f. TXT x41995
f. TXT x41996
f. TXT x41997
f. TXT x41998
f. TXT x41999
f. TXT x42000
f. TXT x42001
f. TXT x42002
f. TXT x42003
f. TXT x42004
f. TXT x42005
f. TXT x42006
f. TXT x42007
f. TXT x42008
f. TXT x42009
f. TXT x42010
f. TXT x42011
f. TXT x42012
f. TXT x42013
f. TXT x42014
f. TXT x42015
f. TXT x42016
f. TXT x42017
f. TXT x42018
f. TXT x42019
f. TXT x42020
f. TXT x42021
f. TXT x42022
f. TXT x42023
f. TXT x42024
f. TXT x42025
f. TXT x42026
f. TXT x42027
f. TXT x42028
f. TXT x42029
f. TXT x42030
f. TXT x42031
f. TXT x42032
f. TXT x42033
f. TXT x42034
f. TXT x42035
f. TXT x42036
f. TXT x42037
f. TXT x42038
f. TXT x42039
f. TXT x42040
f. TXT x42041
f. TXT x42042
f. TXT x42043
f. TXT x42044
f. TXT x42045
f. TXT x42046
f. TXT x42047
$TTL 32997723
f. TXT x42049
f. TXT x42050
f. TXT x42051
f. TXT x42052
f. TXT x42053
f. TXT x42054
f. TXT x42055
f. TXT x42056
f. TXT x42057
f. TXT x42058
f. TXT x42059
f. TXT x42060
f. TXT x42061
f. TXT x42062
f. TXT x42063
f. TXT x42064
f. TXT x42065
f. TXT x42066
f. TXT x42067
f. TXT x42068
f. TXT x42069
f. TXT x42070
f. TXT x42071
f. TXT x42072
f. TXT x42073
f. TXT x42074
f. TXT x42075
f. TXT x42076
f. TXT x42077
f. TXT x42078
f. TXT x42079
f. TXT x42080
f. TXT x42081
f. TXT x42082
f. TXT x42083
f. TXT x42084
f. TXT x42085
f. TXT x42086
f. TXT x42087
f. TXT x42088
f. TXT x42089
f. TXT x42090
f. TXT x42091
f. TXT x42092
f. TXT x42093
f. TXT x42094
f. TXT x42095
f. TXT x42096
f. TXT x42097
f. TXT x42098
f. TXT x42099
f. TXT x42100
f. TXT x42101
f. TXT x42102
f. TXT x42103
f. TXT x42104
f. TXT x42105
f. TXT x42106
f. TXT x42107
f. TXT x42108
f. TXT x42109
f. TXT x42110
f. TXT x42111
cxcc A * yc0 x*x
f. TXT x42113
f. TXT x42114
f. TXT x42115
f. TXT x42116
f. TXT x42117
f. TXT x42118
f. TXT x42119
f. TXT x42120
f. TXT x42121
f. TXT x42122
f. TXT x42123
f. TXT x42124
f. TXT x42125
f. TXT x42126
f. TXT x42127
f. TXT x42128
f. TXT x42129
f. TXT x42130
f. TXT x42131
f. TXT x42132
f. TXT x42133
f. TXT x42134
f. TXT x42135
f. TXT x42136
f. TXT x42137
f. TXT x42138
f. TXT x42139
f. TXT x42140
f. TXT x42141
f. TXT x42142
f. TXT x42143
f. TXT x42144
f. TXT x42145
f. TXT x42146
f. TXT x42147
f. TXT x42148
f. TXT x42149
f. TXT x42150
f. TXT x42151
f. TXT x42152
f. TXT x42153
f. TXT x42154
f. TXT x42155
f. TXT x42156
f. TXT x42157
f. TXT x42158
f. TXT x42159
f. TXT x42160
f. TXT x42161
f. TXT x42162
f. TXT x42163
f. TXT x42164
f. TXT x42165
f. TXT x42166
f. TXT x42167
f. TXT x42168
f. TXT x42169
f. TXT x42170
f. TXT x42171
f. TXT x42172
f. TXT x42173
f. TXT x42174
f. TXT x42175
@ NS b**z
f. TXT x42177
f. TXT x42178
f. TXT x42179
f. TXT x42180
f. TXT x42181
f. TXT x42182
f. TXT x42183
f. TXT x42184
f. TXT x42185
f. TXT x42186
f. TXT x42187
f. TXT x42188
f. TXT x42189
f. TXT x42190
f. TXT x42191
f. TXT x42192
f. TXT x42193
f. TXT x42194
f. TXT x42195
f. TXT x42196
f. TXT x42197
f. TXT x42198
f. TXT x42199
f. TXT x42200
f. TXT x42201
f. TXT x42202
f. TXT x42203
f. TXT x42204
f. TXT x42205
f. TXT x42206
f. TXT x42207
f. TXT x42208
f. TXT x42209
f. TXT x42210
f. TXT x42211
f. TXT x42212
f. TXT x42213
f. TXT x42214
f. TXT x42215
f. TXT x42216
f. TXT x42217
f. TXT x42218
f. TXT x42219
f. TXT x42220
f. TXT x42221
f. TXT x42222
f. TXT x42223
f. TXT x42224
f. TXT x42225
f. TXT x42226
f. TXT x42227
f. TXT x42228
f. TXT x42229
f. TXT x42230
f. TXT x42231
f. TXT x42232
f. TXT x42233
f. TXT x42234
f. TXT x42235
f. TXT x42236
f. TXT x42237
f. TXT x42238
f. TXT x42239
 TXT xcy
f. TXT x42241
f. TXT x42242
f. TXT x42243
f. TXT x42244
f. TXT x42245
f. TXT x42246
f. TXT x42247
f. TXT x42248
f. TXT x42249
f. TXT x42250
f. TXT x42251
f. TXT x42252
f. TXT x42253
f. TXT x42254
f. TXT x42255
f. TXT x42256
f. TXT x42257
f. TXT x42258
f. TXT x42259
f. TXT x42260
f. TXT x42261
f. TXT x42262
f. TXT x42263
f. TXT x42264
f. TXT x42265
f. TXT x42266
f. TXT x42267
f. TXT x42268
f. TXT x42269
f. TXT x42270
f. TXT x42271
f. TXT x42272
f. TXT x42273
f. TXT x42274
f. TXT x42275
f. TXT x42276
f. TXT x42277
f. TXT x42278
f. TXT x42279
f. TXT x42280
f. TXT x42281
f. TXT x42282
f. TXT x42283
f. TXT x42284
f. TXT x42285
f. TXT x42286
f. TXT x42287
f. TXT x42288
f. TXT x42289
f. TXT x42290
f. TXT x42291
f. TXT x42292
f. TXT x42293
f. TXT x42294
f. TXT x42295
f. TXT x42296
f. TXT x42297
f. TXT x42298
f. TXT x42299
f. TXT x42300
f. TXT x42301
f. TXT x42302
f. TXT x42303
x. A - 0bca
f. TXT x42305
f. TXT x42306
f. TXT x42307
f. TXT x42308
f. TXT x42309
f. TXT x42310
f. TXT x42311
f. TXT x42312
f. TXT x42313
f. TXT x42314
f. TXT x42315
f. TXT x42316
f. TXT x42317
f. TXT x42318
f. TXT x42319
f. TXT x42320
f. TXT x42321
f. TXT x42322
f. TXT x42323
f. TXT x42324
f. TXT x42325
f. TXT x42326
f. TXT x42327
f. TXT x42328
f. TXT x42329
f. TXT x42330
f. TXT x42331
f. TXT x42332
f. TXT x42333
f. TXT x42334
f. TXT x42335
f. TXT x42336
f. TXT x42337
f. TXT x42338
f. TXT x42339
f. TXT x42340
f. TXT x42341
f. TXT x42342
f. TXT x42343
f. TXT x42344
f. TXT x42345
f. TXT x42346
f. TXT x42347
f. TXT x42348
f. TXT x42349
f. TXT x42350
f. TXT x42351
f. TXT x42352
f. TXT x42353
f. TXT x42354
f. TXT x42355
f. TXT x42356
f. TXT x42357
f. TXT x42358
f. TXT x42359
f. TXT x42360
f. TXT x42361
f. TXT x42362
f. TXT x42363
f. TXT x42364
f. TXT x42365
f. TXT x42366
f. TXT x42367
cbb A -*z0 *x zy
f. TXT x42369
f. TXT x42370
f. TXT x42371
f. TXT x42372
f. TXT x42373
f. TXT x42374
f. TXT x42375
f. TXT x42376
f. TXT x42377
f. TXT x42378
f. TXT x42379
f. TXT x42380
f. TXT x42381
f. TXT x42382
f. TXT x42383
f. TXT x42384
f. TXT x42385
f. TXT x42386
f. TXT x42387
f. TXT x42388
f. TXT x42389
f. TXT x42390
f. TXT x42391
f. TXT x42392
f. TXT x42393
f. TXT x42394
f. TXT x42395
f. TXT x42396
f. TXT x42397
f. TXT x42398
f. TXT x42399
f. TXT x42400
f. TXT x42401
f. TXT x42402
f. TXT x42403
f. TXT x42404
f. TXT x42405
f. TXT x42406
f. TXT x42407
f. TXT x42408
f. TXT x42409
f. TXT x42410
f. TXT x42411
f. TXT x42412
f. TXT x42413
f. TXT x42414
f. TXT x42415
f. TXT x42416
f. TXT x42417
f. TXT x42418
f. TXT x42419
f. TXT x42420
f. TXT x42421
f. TXT x42422
f. TXT x42423
f. TXT x42424
f. TXT x42425
f. TXT x42426
f. TXT x42427
f. TXT x42428
f. TXT x42429
f. TXT x42430
f. TXT x42431
ac. TXT * b
f. TXT x42433
f. TXT x42434
f. TXT x42435
f. TXT x42436
f. TXT x42437
f. TXT x42438
f. TXT x42439
f. TXT x42440
f. TXT x42441
f. TXT x42442
f. TXT x42443
f. TXT x42444
f. TXT x42445
f. TXT x42446
f. TXT x42447
f. TXT x42448
f. TXT x42449
f. TXT x42450
f. TXT x42451
f. TXT x42452
f. TXT x42453
f. TXT x42454
f. TXT x42455
f. TXT x42456
f. TXT x42457
f. TXT x42458
f. TXT x42459
f. TXT x42460
f. TXT x42461
f. TXT x42462
f. TXT x42463
f. TXT x42464
f. TXT x42465
f. TXT x42466
f. TXT x42467
f. TXT x42468
f. TXT x42469
f. TXT x42470
f. TXT x42471
f. TXT x42472
f. TXT x42473
f. TXT x42474
f. TXT x42475
f. TXT x42476
f. TXT x42477
f. TXT x42478
f. TXT x42479
f. TXT x42480
f. TXT x42481
f. TXT x42482
f. TXT x42483
f. TXT x42484
f. TXT x42485
f. TXT x42486
f. TXT x42487
f. TXT x42488
f. TXT x42489
f. TXT x42490
f. TXT x42491
f. TXT x42492
f. TXT x42493
f. TXT x42494
f. TXT x42495

f. TXT x42497
f. TXT x42498
f. TXT x42499
f. TXT x42500
f. TXT x42501
f. TXT x42502
f. TXT x42503
f. TXT x42504
f. TXT x42505
f. TXT x42506
f. TXT x42507
f. TXT x42508
f. TXT x42509
f. TXT x42510
f. TXT x42511
f. TXT x42512
f. TXT x42513
f. TXT x42514
f. TXT x42515
f. TXT x42516
f. TXT x42517
f. TXT x42518
f. TXT x42519
f. TXT x42520
f. TXT x42521
f. TXT x42522
f. TXT x42523
f. TXT x42524
f. TXT x42525
f. TXT x42526
f. TXT x42527
f. TXT x42528
f. TXT x42529
f. TXT x42530
f. TXT x42531
f. TXT x42532
f. TXT x42533
f. TXT x42534
f. TXT x42535
f. TXT x42536
f. TXT x42537
f. TXT x42538
f. TXT x42539
f. TXT x42540
f. TXT x42541
f. TXT x42542
f. TXT x42543
f. TXT x42544
f. TXT x42545
f. TXT x42546
f. TXT x42547
f. TXT x42548
f. TXT x42549
f. TXT x42550
f. TXT x42551
f. TXT x42552
f. TXT x42553
f. TXT x42554
f. TXT x42555
f. TXT x42556
f. TXT x42557
f. TXT x42558
f. TXT x42559
@ NS z* bc y0b
f. TXT x42561
f. TXT x42562
f. TXT x42563
f. TXT x42564
f. TXT x42565
f. TXT x42566
f. TXT x42567
f. TXT x42568
f. TXT x42569
f. TXT x42570
f. TXT x42571
f. TXT x42572
f. TXT x42573
f. TXT x42574
f. TXT x42575
f. TXT x42576
f. TXT x42577
f. TXT x42578
f. TXT x42579
f. TXT x42580
f. TXT x42581
f. TXT x42582
f. TXT x42583
f. TXT x42584
f. TXT x42585
f. TXT x42586
f. TXT x42587
f. TXT x42588
f. TXT x42589
f. TXT x42590
f. TXT x42591
f. TXT x42592
f. TXT x42593
f. TXT x42594
f. TXT x42595
f. TXT x42596
f. TXT x42597
f. TXT x42598
f. TXT x42599
f. TXT x42600
f. TXT x42601
f. TXT x42602
f. TXT x42603
f. TXT x42604
f. TXT x42605
f. TXT x42606
f. TXT x42607
f. TXT x42608
f. TXT x42609
f. TXT x42610
f. TXT x42611
f. TXT x42612
f. TXT x42613
f. TXT x42614
f. TXT x42615
f. TXT x42616
f. TXT x42617
f. TXT x42618
f. TXT x42619
f. TXT x42620
f. TXT x42621
f. TXT x42622
f. TXT x42623
x-0 TXT *ab
f. TXT x42625
f. TXT x42626
f. TXT x42627
f. TXT x42628
f. TXT x42629
f. TXT x42630
f. TXT x42631
f. TXT x42632
f. TXT x42633
f. TXT x42634
f. TXT x42635
f. TXT x42636
f. TXT x42637
f. TXT x42638
f. TXT x42639
f. TXT x42640
f. TXT x42641
f. TXT x42642
f. TXT x42643
f. TXT x42644
f. TXT x42645
f. TXT x42646
f. TXT x42647
f. TXT x42648
f. TXT x42649
f. TXT x42650
f. TXT x42651
f. TXT x42652
f. TXT x42653
f. TXT x42654
f. TXT x42655
f. TXT x42656
f. TXT x42657
f. TXT x42658
f. TXT x42659
f. TXT x42660
f. TXT x42661
f. TXT x42662
f. TXT x42663
f. TXT x42664
f. TXT x42665
f. TXT x42666
f. TXT x42667
f. TXT x42668
f. TXT x42669
f. TXT x42670
f. TXT x42671
f. TXT x42672
f. TXT x42673
f. TXT x42674
f. TXT x42675
f. TXT x42676
f. TXT x42677
f. TXT x42678
f. TXT x42679
f. TXT x42680
f. TXT x42681
f. TXT x42682
f. TXT x42683
f. TXT x42684
f. TXT x42685
f. TXT x42686
f. TXT x42687
@ NS zz
f. TXT x42689
f. TXT x42690
f. TXT x42691
f. TXT x42692
f. TXT x42693
f. TXT x42694
f. TXT x42695
f. TXT x42696
f. TXT x42697
f. TXT x42698
f. TXT x42699
f. TXT x42700
f. TXT x42701
f. TXT x42702
f. TXT x42703
f. TXT x42704
f. TXT x42705
f. TXT x42706
f. TXT x42707
f. TXT x42708
f. TXT x42709
f. TXT x42710
f. TXT x42711
f. TXT x42712
f. TXT x42713
f. TXT x42714
f. TXT x42715
f. TXT x42716
f. TXT x42717
f. TXT x42718
f. TXT x42719
f. TXT x42720
f. TXT x42721
f. TXT x42722
f. TXT x42723
f. TXT x42724
f. TXT x42725
f. TXT x42726
f. TXT x42727
f. TXT x42728
f. TXT x42729
f. TXT x42730
f. TXT x42731
f. TXT x42732
f. TXT x42733
f. TXT x42734
f. TXT x42735
f. TXT x42736
f. TXT x42737
f. TXT x42738
f. TXT x42739
f. TXT x42740
f. TXT x42741
f. TXT x42742
f. TXT x42743
f. TXT x42744
f. TXT x42745
f. TXT x42746
f. TXT x42747
f. TXT x42748
f. TXT x42749
f. TXT x42750
f. TXT x42751
baaz.cy. NS b
f. TXT x42753
f. TXT x42754
f. TXT x42755
f. TXT x42756
f. TXT x42757
f. TXT x42758
f. TXT x42759
f. TXT x42760
f. TXT x42761
f. TXT x42762
f. TXT x42763
f. TXT x42764
f. TXT x42765
f. TXT x42766
f. TXT x42767
f. TXT x42768
f. TXT x42769
f. TXT x42770
f. TXT x42771
f. TXT x42772
f. TXT x42773
f. TXT x42774
f. TXT x42775
f. TXT x42776
f. TXT x42777
f. TXT x42778
f. TXT x42779
f. TXT x42780
f. TXT x42781
f. TXT x42782
f. TXT x42783
f. TXT x42784
f. TXT x42785
f. TXT x42786
f. TXT x42787
f. TXT x42788
f. TXT x42789
f. TXT x42790
f. TXT x42791
f. TXT x42792
f. TXT x42793
f. TXT x42794
f. TXT x42795
f. TXT x42796
f. TXT x42797
f. TXT x42798
f. TXT x42799
f. TXT x42800
f. TXT x42801
f. TXT x42802
f. TXT x42803
f. TXT x42804
f. TXT x42805
f. TXT x42806
f. TXT x42807
f. TXT x42808
f. TXT x42809
f. TXT x42810
f. TXT x42811
f. TXT x42812
f. TXT x42813
f. TXT x42814
f. TXT x42815

f. TXT x42817
f. TXT x42818
f. TXT x42819
f. TXT x42820
f. TXT x42821
f. TXT x42822
f. TXT x42823
f. TXT x42824
f. TXT x42825
f. TXT x42826
f. TXT x42827
f. TXT x42828
f. TXT x42829
f. TXT x42830
f. TXT x42831
f. TXT x42832
f. TXT x42833
f. TXT x42834
f. TXT x42835
f. TXT x42836
f. TXT x42837
f. TXT x42838
f. TXT x42839
f. TXT x42840
f. TXT x42841
f. TXT x42842
f. TXT x42843
f. TXT x42844
f. TXT x42845
f. TXT x42846
f. TXT x42847
f. TXT x42848
f. TXT x42849
f. TXT x42850
f. TXT x42851
f. TXT x42852
f. TXT x42853
f. TXT x42854
f. TXT x42855
f. TXT x42856
f. TXT x42857
f. TXT x42858
f. TXT x42859
f. TXT x42860
f. TXT x42861
f. TXT x42862
f. TXT x42863
f. TXT x42864
f. TXT x42865
f. TXT x42866
f. TXT x42867
f. TXT x42868
f. TXT x42869
f. TXT x42870
f. TXT x42871
f. TXT x42872
f. TXT x42873
f. TXT x42874
f. TXT x42875
f. TXT x42876
f. TXT x42877
f. TXT x42878
f. TXT x42879
 A yc
f. TXT x42881
f. TXT x42882
f. TXT x42883
f. TXT x42884
f. TXT x42885
f. TXT x42886
f. TXT x42887
f. TXT x42888
f. TXT x42889
f. TXT x42890
f. TXT x42891
f. TXT x42892
f. TXT x42893
f. TXT x42894
f. TXT x42895
f. TXT x42896
f. TXT x42897
f. TXT x42898
f. TXT x42899
f. TXT x42900
f. TXT x42901
f. TXT x42902
f. TXT x42903
f. TXT x42904
f. TXT x42905
f. TXT x42906
f. TXT x42907
f. TXT x42908
f. TXT x42909
f. TXT x42910
f. TXT x42911
f. TXT x42912
f. TXT x42913
f. TXT x42914
f. TXT x42915
f. TXT x42916
f. TXT x42917
f. TXT x42918
f. TXT x42919
f. TXT x42920
f. TXT x42921
f. TXT x42922
f. TXT x42923
f. TXT x42924
f. TXT x42925
f. TXT x42926
f. TXT x42927
f. TXT x42928
f. TXT x42929
f. TXT x42930
f. TXT x42931
f. TXT x42932
f. TXT x42933
f. TXT x42934
f. TXT x42935
f. TXT x42936
f. TXT x42937
f. TXT x42938
f. TXT x42939
f. TXT x42940
f. TXT x42941
f. TXT x42942
f. TXT x42943
$TTL 102929
f. TXT x42945
f. TXT x42946
f. TXT x42947
f. TXT x42948
f. TXT x42949
f. TXT x42950
f. TXT x42951
f. TXT x42952
f. TXT x42953
f. TXT x42954
f. TXT x42955
f. TXT x42956
f. TXT x42957
f. TXT x42958
f. TXT x42959
f. TXT x42960
f. TXT x42961
f. TXT x42962
f. TXT x42963
f. TXT x42964
f. TXT x42965
f. TXT x42966
f. TXT x42967
f. TXT x42968
f. TXT x42969
f. TXT x42970
f. TXT x42971
f. TXT x42972
f. TXT x42973
f. TXT x42974
f. TXT x42975
f. TXT x42976
f. TXT x42977
f. TXT x42978
f. TXT x42979
f. TXT x42980
f. TXT x42981
f. TXT x42982
f. TXT x42983
f. TXT x42984
f. TXT x42985
f. TXT x42986
f. TXT x42987
f. TXT x42988
f. TXT x42989
f. TXT x42990
f. TXT x42991
f. TXT x42992
f. TXT x42993
f. TXT x42994
f. TXT x42995
f. TXT x42996
f. TXT x42997
f. TXT x42998
f. TXT x42999
f. TXT x43000
f. TXT x43001
f. TXT x43002
f. TXT x43003
f. TXT x43004
f. TXT x43005
f. TXT x43006
f. TXT x43007
; ccyx
f. TXT x43009
f. TXT x43010
f. TXT x43011
f. TXT x43012
f. TXT x43013
f. TXT x43014
f. TXT x43015
f. TXT x43016
f. TXT x43017
f. TXT x43018
f. TXT x43019
f. TXT x43020
f. TXT x43021
f. TXT x43022
f. TXT x43023
f. TXT x43024
f. TXT x43025
f. TXT x43026
f. TXT x43027
f. TXT x43028
f. TXT x43029
f. TXT x43030
f. TXT x43031
f. TXT x43032
f. TXT x43033
f. TXT x43034
f. TXT x43035
f. TXT x43036
f. TXT x43037
f. TXT x43038
f. TXT x43039
f. TXT x43040
f. TXT x43041
f. TXT x43042
f. TXT x43043
f. TXT x43044
f. TXT x43045
f. TXT x43046
f. TXT x43047
f. TXT x43048
f. TXT x43049
f. TXT x43050
f. TXT x43051
f. TXT x43052
f. TXT x43053
f. TXT x43054
f. TXT x43055
f. TXT x43056
f. TXT x43057
f. TXT x43058
f. TXT x43059
f. TXT x43060
f. TXT x43061
f. TXT x43062
f. TXT x43063
f. TXT x43064
f. TXT x43065
f. TXT x43066
f. TXT x43067
f. TXT x43068
f. TXT x43069
f. TXT x43070
f. TXT x43071
yb0. NS cz0
f. TXT x43073
f. TXT x43074
f. TXT x43075
f. TXT x43076
f. TXT x43077
f. TXT x43078
f. TXT x43079
f. TXT x43080
f. TXT x43081
f. TXT x43082
f. TXT x43083
f. TXT x43084
f. TXT x43085
f. TXT x43086
f. TXT x43087
f. TXT x43088
f. TXT x43089
f. TXT x43090
f. TXT x43091
f. TXT x43092
f. TXT x43093
f. TXT x43094
f. TXT x43095
f. TXT x43096
f. TXT x43097
f. TXT x43098
f. TXT x43099
f. TXT x43100
f. TXT x43101
f. TXT x43102
f. TXT x43103
f. TXT x43104
f. TXT x43105
f. TXT x43106
f. TXT x43107
f. TXT x43108
f. TXT x43109
f. TXT x43110
f. TXT x43111
f. TXT x43112
f. TXT x43113
f. TXT x43114
f. TXT x43115
f. TXT x43116
f. TXT x43117
f. TXT x43118
f. TXT x43119
f. TXT x43120
f. TXT x43121
f. TXT x43122
f. TXT x43123
f. TXT x43124
f. TXT x43125
f. TXT x43126
f. TXT x43127
f. TXT x43128
f. TXT x43129
f. TXT x43130
f. TXT x43131
f. TXT x43132
f. TXT x43133
f. TXT x43134
f. TXT x43135

f. TXT x43137
f. TXT x43138
f. TXT x43139
f. TXT x43140
f. TXT x43141
f. TXT x43142
f. TXT x43143
f. TXT x43144
f. TXT x43145
f. TXT x43146
f. TXT x43147
f. TXT x43148
f. TXT x43149
f. TXT x43150
f. TXT x43151
f. TXT x43152
f. TXT x43153
f. TXT x43154
f. TXT x43155
f. TXT x43156
f. TXT x43157
f. TXT x43158
f. TXT x43159
f. TXT x43160
f. TXT x43161
f. TXT x43162
f. TXT x43163
f. TXT x43164
f. TXT x43165
f. TXT x43166
f. TXT x43167
f. TXT x43168
f. TXT x43169
f. TXT x43170
f. TXT x43171
f. TXT x43172
f. TXT x43173
f. TXT x43174
f. TXT x43175
f. TXT x43176
f. TXT x43177
f. TXT x43178
f. TXT x43179
f. TXT x43180
f. TXT x43181
f. TXT x43182
f. TXT x43183
f. TXT x43184
f. TXT x43185
f. TXT x43186
f. TXT x43187
f. TXT x43188
f. TXT x43189
f. TXT x43190
f. TXT x43191
f. TXT x43192
f. TXT x43193
f. TXT x43194
f. TXT x43195
f. TXT x43196
f. TXT x43197
f. TXT x43198
f. TXT x43199
@ NS -bzz z
f. TXT x43201
f. TXT x43202
f. TXT x43203
f. TXT x43204
f. TXT x43205
f. TXT x43206
f. TXT x43207
f. TXT x43208
f. TXT x43209
f. TXT x43210
f. TXT x43211
f. TXT x43212
f. TXT x43213
f. TXT x43214
f. TXT x43215
f. TXT x43216
f. TXT x43217
f. TXT x43218
f. TXT x43219
f. TXT x43220
f. TXT x43221
f. TXT x43222
f. TXT x43223
f. TXT x43224
f. TXT x43225
f. TXT x43226
f. TXT x43227
f. TXT x43228
f. TXT x43229
f. TXT x43230
f. TXT x43231
f. TXT x43232
f. TXT x43233
f. TXT x43234
f. TXT x43235
f. TXT x43236
f. TXT x43237
f. TXT x43238
f. TXT x43239
f. TXT x43240
f. TXT x43241
f. TXT x43242
f. TXT x43243
f. TXT x43244
f. TXT x43245
f. TXT x43246
f. TXT x43247
f. TXT x43248
f. TXT x43249
f. TXT x43250
f. TXT x43251
f. TXT x43252
f. TXT x43253
f. TXT x43254
f. TXT x43255
f. TXT x43256
f. TXT x43257
f. TXT x43258
f. TXT x43259
f. TXT x43260
f. TXT x43261
f. TXT x43262
f. TXT x43263
; xx
f. TXT x43265
f. TXT x43266
f. TXT x43267
f. TXT x43268
f. TXT x43269
f. TXT x43270
f. TXT x43271
f. TXT x43272
f. TXT x43273
f. TXT x43274
f. TXT x43275
f. TXT x43276
f. TXT x43277
f. TXT x43278
f. TXT x43279
f. TXT x43280
f. TXT x43281
f. TXT x43282
f. TXT x43283
f. TXT x43284
f. TXT x43285
f. TXT x43286
f. TXT x43287
f. TXT x43288
f. TXT x43289
f. TXT x43290
f. TXT x43291
f. TXT x43292
f. TXT x43293
f. TXT x43294
f. TXT x43295
f. TXT x43296
f. TXT x43297
f. TXT x43298
f. TXT x43299
f. TXT x43300
f. TXT x43301
f. TXT x43302
f. TXT x43303
f. TXT x43304
f. TXT x43305
f. TXT x43306
f. TXT x43307
f. TXT x43308
f. TXT x43309
f. TXT x43310
f. TXT x43311
f. TXT x43312
f. TXT x43313
f. TXT x43314
f. TXT x43315
f. TXT x43316
f. TXT x43317
f. TXT x43318
f. TXT x43319
f. TXT x43320
f. TXT x43321
f. TXT x43322
f. TXT x43323
f. TXT x43324
f. TXT x43325
f. TXT x43326
f. TXT x43327
@ TXT bb0 0 0b-
f. TXT x43329
f. TXT x43330
f. TXT x43331
f. TXT x43332
f. TXT x43333
f. TXT x43334
f. TXT x43335
f. TXT x43336
f. TXT x43337
f. TXT x43338
f. TXT x43339
f. TXT x43340
f. TXT x43341
f. TXT x43342
f. TXT x43343
f. TXT x43344
f. TXT x43345
f. TXT x43346
f. TXT x43347
f. TXT x43348
f. TXT x43349
f. TXT x43350
f. TXT x43351
f. TXT x43352
f. TXT x43353
f. TXT x43354
f. TXT x43355
f. TXT x43356
f. TXT x43357
f. TXT x43358
f. TXT x43359
f. TXT x43360
f. TXT x43361
f. TXT x43362
f. TXT x43363
f. TXT x43364
f. TXT x43365
f. TXT x43366
f. TXT x43367
f. TXT x43368
f. TXT x43369
f. TXT x43370
f. TXT x43371
f. TXT x43372
f. TXT x43373
f. TXT x43374
f. TXT x43375
f. TXT x43376
f. TXT x43377
f. TXT x43378
f. TXT x43379
f. TXT x43380
f. TXT x43381
f. TXT x43382
f. TXT x43383
f. TXT x43384
f. TXT x43385
f. TXT x43386
f. TXT x43387
f. TXT x43388
f. TXT x43389
f. TXT x43390
f. TXT x43391
-y0* A bc-
f. TXT x43393
f. TXT x43394
f. TXT x43395
f. TXT x43396
f. TXT x43397
f. TXT x43398
f. TXT x43399
f. TXT x43400
f. TXT x43401
f. TXT x43402
f. TXT x43403
f. TXT x43404
f. TXT x43405
f. TXT x43406
f. TXT x43407
f. TXT x43408
f. TXT x43409
f. TXT x43410
f. TXT x43411
f. TXT x43412
f. TXT x43413
f. TXT x43414
f. TXT x43415
f. TXT x43416
f. TXT x43417
f. TXT x43418
f. TXT x43419
f. TXT x43420
f. TXT x43421
f. TXT x43422
f. TXT x43423
f. TXT x43424
f. TXT x43425
f. TXT x43426
f. TXT x43427
f. TXT x43428
f. TXT x43429
f. TXT x43430
f. TXT x43431
f. TXT x43432
f. TXT x43433
f. TXT x43434
f. TXT x43435
f. TXT x43436
f. TXT x43437
f. TXT x43438
f. TXT x43439
f. TXT x43440
f. TXT x43441
f. TXT x43442
f. TXT x43443
f. TXT x43444
f. TXT x43445
f. TXT x43446
f. TXT x43447
f. TXT x43448
f. TXT x43449
f. TXT x43450
f. TXT x43451
f. TXT x43452
f. TXT x43453
f. TXT x43454
f. TXT x43455
@ TXT a-c0 a-*0 *
f. TXT x43457
f. TXT x43458
f. TXT x43459
f. TXT x43460
f. TXT x43461
f. TXT x43462
f. TXT x43463
f. TXT x43464
f. TXT x43465
f. TXT x43466
f. TXT x43467
f. TXT x43468
f. TXT x43469
f. TXT x43470
f. TXT x43471
f. TXT x43472
f. TXT x43473
f. TXT x43474
f. TXT x43475
f. TXT x43476
f. TXT x43477
f. TXT x43478
f. TXT x43479
f. TXT x43480
f. TXT x43481
f. TXT x43482
f. TXT x43483
f. TXT x43484
f. TXT x43485
f. TXT x43486
f. TXT x43487
f. TXT x43488
f. TXT x43489
f. TXT x43490
f. TXT x43491
f. TXT x43492
f. TXT x43493
f. TXT x43494
f. TXT x43495
f. TXT x43496
f. TXT x43497
f. TXT x43498
f. TXT x43499
f. TXT x43500
f. TXT x43501
f. TXT x43502
f. TXT x43503
f. TXT x43504
f. TXT x43505
f. TXT x43506
f. TXT x43507
f. TXT x43508
f. TXT x43509
f. TXT x43510
f. TXT x43511
f. TXT x43512
f. TXT x43513
f. TXT x43514
f. TXT x43515
f. TXT x43516
f. TXT x43517
f. TXT x43518
f. TXT x43519
-.-b. NS a0-
f. TXT x43521
f. TXT x43522
f. TXT x43523
f. TXT x43524
f. TXT x43525
f. TXT x43526
f. TXT x43527
f. TXT x43528
f. TXT x43529
f. TXT x43530
f. TXT x43531
f. TXT x43532
f. TXT x43533
f. TXT x43534
f. TXT x43535
f. TXT x43536
f. TXT x43537
f. TXT x43538
f. TXT x43539
f. TXT x43540
f. TXT x43541
f. TXT x43542
f. TXT x43543
f. TXT x43544
f. TXT x43545
f. TXT x43546
f. TXT x43547
f. TXT x43548
f. TXT x43549
f. TXT x43550
f. TXT x43551
f. TXT x43552
f. TXT x43553
f. TXT x43554
f. TXT x43555
f. TXT x43556
f. TXT x43557
f. TXT x43558
f. TXT x43559
f. TXT x43560
f. TXT x43561
f. TXT x43562
f. TXT x43563
f. TXT x43564
f. TXT x43565
f. TXT x43566
f. TXT x43567
f. TXT x43568
f. TXT x43569
f. TXT x43570
f. TXT x43571
f. TXT x43572
f. TXT x43573
f. TXT x43574
f. TXT x43575
f. TXT x43576
f. TXT x43577
f. TXT x43578
f. TXT x43579
f. TXT x43580
f. TXT x43581
f. TXT x43582
f. TXT x43583
a A c yza *a0b
f. TXT x43585
f. TXT x43586
f. TXT x43587
f. TXT x43588
f. TXT x43589
f. TXT x43590
f. TXT x43591
f. TXT x43592
f. TXT x43593
f. TXT x43594
f. TXT x43595
f. TXT x43596
f. TXT x43597
f. TXT x43598
f. TXT x43599
f. TXT x43600
f. TXT x43601
f. TXT x43602
f. TXT x43603
f. TXT x43604
f. TXT x43605
f. TXT x43606
f. TXT x43607
f. TXT x43608
f. TXT x43609
f. TXT x43610
f. TXT x43611
f. TXT x43612
f. TXT x43613
f. TXT x43614
f. TXT x43615
f. TXT x43616
f. TXT x43617
f. TXT x43618
f. TXT x43619
f. TXT x43620
f. TXT x43621
f. TXT x43622
f. TXT x43623
f. TXT x43624
f. TXT x43625
f. TXT x43626
f. TXT x43627
f. TXT x43628
f. TXT x43629
f. TXT x43630
f. TXT x43631
f. TXT x43632
f. TXT x43633
f. TXT x43634
f. TXT x43635
f. TXT x43636
f. TXT x43637
f. TXT x43638
f. TXT x43639
f. TXT x43640
f. TXT x43641
f. TXT x43642
f. TXT x43643
f. TXT x43644
f. TXT x43645
f. TXT x43646
f. TXT x43647

f. TXT x43649
f. TXT x43650
f. TXT x43651
f. TXT x43652
f. TXT x43653
f. TXT x43654
f. TXT x43655
f. TXT x43656
f. TXT x43657
f. TXT x43658
f. TXT x43659
f. TXT x43660
f. TXT x43661
f. TXT x43662
f. TXT x43663
f. TXT x43664
f. TXT x43665
f. TXT x43666
f. TXT x43667
f. TXT x43668
f. TXT x43669
f. TXT x43670
f. TXT x43671
f. TXT x43672
f. TXT x43673
f. TXT x43674
f. TXT x43675
f. TXT x43676
f. TXT x43677
f. TXT x43678
f. TXT x43679
f. TXT x43680
f. TXT x43681
f. TXT x43682
f. TXT x43683
f. TXT x43684
f. TXT x43685
f. TXT x43686
f. TXT x43687
f. TXT x43688
f. TXT x43689
f. TXT x43690
f. TXT x43691
f. TXT x43692
f. TXT x43693
f. TXT x43694
f. TXT x43695
f. TXT x43696
f. TXT x43697
f. TXT x43698
f. TXT x43699
f. TXT x43700
f. TXT x43701
f. TXT x43702
f. TXT x43703
f. TXT x43704
f. TXT x43705
f. TXT x43706
f. TXT x43707
f. TXT x43708
f. TXT x43709
f. TXT x43710
f. TXT x43711
$ORIGIN 0zz.*b.
f. TXT x43713
f. TXT x43714
f. TXT x43715
f. TXT x43716
f. TXT x43717
f. TXT x43718
f. TXT x43719
f. TXT x43720
f. TXT x43721
f. TXT x43722
f. TXT x43723
f. TXT x43724
f. TXT x43725
f. TXT x43726
f. TXT x43727
f. TXT x43728
f. TXT x43729
f. TXT x43730
f. TXT x43731
f. TXT x43732
f. TXT x43733
f. TXT x43734
f. TXT x43735
f. TXT x43736
f. TXT x43737
f. TXT x43738
f. TXT x43739
f. TXT x43740
f. TXT x43741
f. TXT x43742
f. TXT x43743
f. TXT x43744
f. TXT x43745
f. TXT x43746
f. TXT x43747
f. TXT x43748
f. TXT x43749
f. TXT x43750
f. TXT x43751
f. TXT x43752
f. TXT x43753
f. TXT x43754
f. TXT x43755
f. TXT x43756
f. TXT x43757
f. TXT x43758
f. TXT x43759
f. TXT x43760
f. TXT x43761
f. TXT x43762
f. TXT x43763
f. TXT x43764
f. TXT x43765
f. TXT x43766
f. TXT x43767
f. TXT x43768
f. TXT x43769
f. TXT x43770
f. TXT x43771
f. TXT x43772
f. TXT x43773
f. TXT x43774
f. TXT x43775
@ TXT - y bcz
f. TXT x43777
f. TXT x43778
f. TXT x43779
f. TXT x43780
f. TXT x43781
f. TXT x43782
f. TXT x43783
f. TXT x43784
f. TXT x43785
f. TXT x43786
f. TXT x43787
f. TXT x43788
f. TXT x43789
f. TXT x43790
f. TXT x43791
f. TXT x43792
f. TXT x43793
f. TXT x43794
f. TXT x43795
f. TXT x43796
f. TXT x43797
f. TXT x43798
f. TXT x43799
f. TXT x43800
f. TXT x43801
f. TXT x43802
f. TXT x43803
f. TXT x43804
f. TXT x43805
f. TXT x43806
f. TXT x43807
f. TXT x43808
f. TXT x43809
f. TXT x43810
f. TXT x43811
f. TXT x43812
f. TXT x43813
f. TXT x43814
f. TXT x43815
f. TXT x43816
f. TXT x43817
f. TXT x43818
f. TXT x43819
f. TXT x43820
f. TXT x43821
f. TXT x43822
f. TXT x43823
f. TXT x43824
f. TXT x43825
f. TXT x43826
f. TXT x43827
f. TXT x43828
f. TXT x43829
f. TXT x43830
f. TXT x43831
f. TXT x43832
f. TXT x43833
f. TXT x43834
f. TXT x43835
f. TXT x43836
f. TXT x43837
f. TXT x43838
f. TXT x43839
ca.a. NS a-
f. TXT x43841
f. TXT x43842
f. TXT x43843
f. TXT x43844
f. TXT x43845
f. TXT x43846
f. TXT x43847
f. TXT x43848
f. TXT x43849
f. TXT x43850
f. TXT x43851
f. TXT x43852
f. TXT x43853
f. TXT x43854
f. TXT x43855
f. TXT x43856
f. TXT x43857
f. TXT x43858
f. TXT x43859
f. TXT x43860
f. TXT x43861
f. TXT x43862
f. TXT x43863
f. TXT x43864
f. TXT x43865
f. TXT x43866
f. TXT x43867
f. TXT x43868
f. TXT x43869
f. TXT x43870
f. TXT x43871
f. TXT x43872
f. TXT x43873
f. TXT x43874
f. TXT x43875
f. TXT x43876
f. TXT x43877
f. TXT x43878
f. TXT x43879
f. TXT x43880
f. TXT x43881
f. TXT x43882
f. TXT x43883
f. TXT x43884
f. TXT x43885
f. TXT x43886
f. TXT x43887
f. TXT x43888
f. TXT x43889
f. TXT x43890
f. TXT x43891
f. TXT x43892
f. TXT x43893
f. TXT x43894
f. TXT x43895
f. TXT x43896
f. TXT x43897
f. TXT x43898
f. TXT x43899
f. TXT x43900
f. TXT x43901
f. TXT x43902
f. TXT x43903
; -
f. TXT x43905
f. TXT x43906
f. TXT x43907
f. TXT x43908
f. TXT x43909
f. TXT x43910
f. TXT x43911
f. TXT x43912
f. TXT x43913
f. TXT x43914
f. TXT x43915
f. TXT x43916
f. TXT x43917
f. TXT x43918
f. TXT x43919
f. TXT x43920
f. TXT x43921
f. TXT x43922
f. TXT x43923
f. TXT x43924
f. TXT x43925
f. TXT x43926
f. TXT x43927
f. TXT x43928
f. TXT x43929
f. TXT x43930
f. TXT x43931
f. TXT x43932
f. TXT x43933
f. TXT x43934
f. TXT x43935
f. TXT x43936
f. TXT x43937
f. TXT x43938
f. TXT x43939
f. TXT x43940
f. TXT x43941
f. TXT x43942
f. TXT x43943
f. TXT x43944
f. TXT x43945
f. TXT x43946
f. TXT x43947
f. TXT x43948
f. TXT x43949
f. TXT x43950
f. TXT x43951
f. TXT x43952
f. TXT x43953
f. TXT x43954
f. TXT x43955
f. TXT x43956
f. TXT x43957
f. TXT x43958
f. TXT x43959
f. TXT x43960
f. TXT x43961
f. TXT x43962
f. TXT x43963
f. TXT x43964
f. TXT x43965
f. TXT x43966
f. TXT x43967
 NS zyaz bbc
f. TXT x43969
f. TXT x43970
f. TXT x43971
f. TXT x43972
f. TXT x43973
f. TXT x43974
f. TXT x43975
f. TXT x43976
f. TXT x43977
f. TXT x43978
f. TXT x43979
f. TXT x43980
f. TXT x43981
f. TXT x43982
f. TXT x43983
f. TXT x43984
f. TXT x43985
f. TXT x43986
f. TXT x43987
f. TXT x43988
f. TXT x43989
f. TXT x43990
f. TXT x43991
f. TXT x43992
f. TXT x43993
f. TXT x43994
f. TXT x43995
f. TXT x43996
f. TXT x43997
f. TXT x43998
f. TXT x43999
f. TXT x44000
f. TXT x44001
f. TXT x44002
f. TXT x44003
f. TXT x44004
f. TXT x44005
f. TXT x44006
f. TXT x44007
f. TXT x44008
f. TXT x44009
f. TXT x44010
f. TXT x44011
f. TXT x44012
f. TXT x44013
f. TXT x44014
f. TXT x44015
f. TXT x44016
f. TXT x44017
f. TXT x44018
f. TXT x44019
f. TXT x44020
f. TXT x44021
f. TXT x44022
f. TXT x44023
f. TXT x44024
f. TXT x44025
f. TXT x44026
f. TXT x44027
f. TXT x44028
f. TXT x44029
f. TXT x44030
f. TXT x44031
0zb. NS az
f. TXT x44033
f. TXT x44034
f. TXT x44035
f. TXT x44036
f. TXT x44037
f. TXT x44038
f. TXT x44039
f. TXT x44040
f. TXT x44041
f. TXT x44042
f. TXT x44043
f. TXT x44044
f. TXT x44045
f. TXT x44046
f. TXT x44047
f. TXT x44048
f. TXT x44049
f. TXT x44050
f. TXT x44051
f. TXT x44052
f. TXT x44053
f. TXT x44054
f. TXT x44055
f. TXT x44056
f. TXT x44057
f. TXT x44058
f. TXT x44059
f. TXT x44060
f. TXT x44061
f. TXT x44062
f. TXT x44063
f. TXT x44064
f. TXT x44065
f. TXT x44066
f. TXT x44067
f. TXT x44068
f. TXT x44069
f. TXT x44070
f. TXT x44071
f. TXT x44072
f. TXT x44073
f. TXT x44074
f. TXT x44075
f. TXT x44076
f. TXT x44077
f. TXT x44078
f. TXT x44079
f. TXT x44080
f. TXT x44081
f. TXT x44082
f. TXT x44083
f. TXT x44084
f. TXT x44085
f. TXT x44086
f. TXT x44087
f. TXT x44088
f. TXT x44089
f. TXT x44090
f. TXT x44091
f. TXT x44092
f. TXT x44093
f. TXT x44094
f. TXT x44095
; a*
f. TXT x44097
f. TXT x44098
f. TXT x44099
f. TXT x44100
f. TXT x44101
f. TXT x44102
f. TXT x44103
f. TXT x44104
f. TXT x44105
f. TXT x44106
f. TXT x44107
f. TXT x44108
f. TXT x44109
f. TXT x44110
f. TXT x44111
f. TXT x44112
f. TXT x44113
f. TXT x44114
f. TXT x44115
f. TXT x44116
f. TXT x44117
f. TXT x44118
f. TXT x44119
f. TXT x44120
f. TXT x44121
f. TXT x44122
f. TXT x44123
f. TXT x44124
f. TXT x44125
f. TXT x44126
f. TXT x44127
f. TXT x44128
f. TXT x44129
f. TXT x44130
f. TXT x44131
f. TXT x44132
f. TXT x44133
f. TXT x44134
f. TXT x44135
f. TXT x44136
f. TXT x44137
f. TXT x44138
f. TXT x44139
f. TXT x44140
f. TXT x44141
f. TXT x44142
f. TXT x44143
f. TXT x44144
f. TXT x44145
f. TXT x44146
f. TXT x44147
f. TXT x44148
f. TXT x44149
f. TXT x44150
f. TXT x44151
f. TXT x44152
f. TXT x44153
f. TXT x44154
f. TXT x44155
f. TXT x44156
f. TXT x44157
f. TXT x44158
f. TXT x44159
$ORIGIN ay.
f. TXT x44161
f. TXT x44162
f. TXT x44163
f. TXT x44164
f. TXT x44165
f. TXT x44166
f. TXT x44167
f. TXT x44168
f. TXT x44169
f. TXT x44170
f. TXT x44171
f. TXT x44172
f. TXT x44173
f. TXT x44174
f. TXT x44175
f. TXT x44176
f. TXT x44177
f. TXT x44178
f. TXT x44179
f. TXT x44180
f. TXT x44181
f. TXT x44182
f. TXT x44183
f. TXT x44184
f. TXT x44185
f. TXT x44186
f. TXT x44187
f. TXT x44188
f. TXT x44189
f. TXT x44190
f. TXT x44191
f. TXT x44192
f. TXT x44193
f. TXT x44194
f. TXT x44195
f. TXT x44196
f. TXT x44197
f. TXT x44198
f. TXT x44199
f. TXT x44200
f. TXT x44201
f. TXT x44202
f. TXT x44203
f. TXT x44204
f. TXT x44205
f. TXT x44206
f. TXT x44207
f. TXT x44208
f. TXT x44209
f. TXT x44210
f. TXT x44211
f. TXT x44212
f. TXT x44213
f. TXT x44214
f. TXT x44215
f. TXT x44216
f. TXT x44217
f. TXT x44218
f. TXT x44219
f. TXT x44220
f. TXT x44221
f. TXT x44222
f. TXT x44223
 TXT x* y
f. TXT x44225
f. TXT x44226
f. TXT x44227
f. TXT x44228
f. TXT x44229
f. TXT x44230
f. TXT x44231
f. TXT x44232
f. TXT x44233
f. TXT x44234
f. TXT x44235
f. TXT x44236
f. TXT x44237
f. TXT x44238
f. TXT x44239
f. TXT x44240
f. TXT x44241
f. TXT x44242
f. TXT x44243
f. TXT x44244
f. TXT x44245
f. TXT x44246
f. TXT x44247
f. TXT x44248
f. TXT x44249
f. TXT x44250
f. TXT x44251
f. TXT x44252
f. TXT x44253
f. TXT x44254
f. TXT x44255
f. TXT x44256
f. TXT x44257
f. TXT x44258
f. TXT x44259
f. TXT x44260
f. TXT x44261
f. TXT x44262
f. TXT x44263
f. TXT x44264
f. TXT x44265
f. TXT x44266
f. TXT x44267
f. TXT x44268
f. TXT x44269
f. TXT x44270
f. TXT x44271
f. TXT x44272
f. TXT x44273
f. TXT x44274
f. TXT x44275
f. TXT x44276
f. TXT x44277
f. TXT x44278
f. TXT x44279
f. TXT x44280
f. TXT x44281
f. TXT x44282
f. TXT x44283
f. TXT x44284
f. TXT x44285
f. TXT x44286
f. TXT x44287

f. TXT x44289
f. TXT x44290
f. TXT x44291
f. TXT x44292
f. TXT x44293
f. TXT x44294
f. TXT x44295
f. TXT x44296
f. TXT x44297
f. TXT x44298
f. TXT x44299
f. TXT x44300
f. TXT x44301
f. TXT x44302
f. TXT x44303
f. TXT x44304
f. TXT x44305
f. TXT x44306
f. TXT x44307
f. TXT x44308
f. TXT x44309
f. TXT x44310
f. TXT x44311
f. TXT x44312
f. TXT x44313
f. TXT x44314
f. TXT x44315
f. TXT x44316
f. TXT x44317
f. TXT x44318
f. TXT x44319
f. TXT x44320
f. TXT x44321
f. TXT x44322
f. TXT x44323
f. TXT x44324
f. TXT x44325
f. TXT x44326
f. TXT x44327
f. TXT x44328
f. TXT x44329
f. TXT x44330
f. TXT x44331
f. TXT x44332
f. TXT x44333
f. TXT x44334
f. TXT x44335
f. TXT x44336
f. TXT x44337
f. TXT x44338
f. TXT x44339
f. TXT x44340
f. TXT x44341
f. TXT x44342
f. TXT x44343
f. TXT x44344
f. TXT x44345
f. TXT x44346
f. TXT x44347
f. TXT x44348
f. TXT x44349
f. TXT x44350
f. TXT x44351
@ NS c
f. TXT x44353
f. TXT x44354
f. TXT x44355
f. TXT x44356
f. TXT x44357
f. TXT x44358
f. TXT x44359
f. TXT x44360
f. TXT x44361
f. TXT x44362
f. TXT x44363
f. TXT x44364
f. TXT x44365
f. TXT x44366
f. TXT x44367
f. TXT x44368
f. TXT x44369
f. TXT x44370
f. TXT x44371
f. TXT x44372
f. TXT x44373
f. TXT x44374
f. TXT x44375
f. TXT x44376
f. TXT x44377
f. TXT x44378
f. TXT x44379
f. TXT x44380
f. TXT x44381
f. TXT x44382
f. TXT x44383
f. TXT x44384
f. TXT x44385
f. TXT x44386
f. TXT x44387
f. TXT x44388
f. TXT x44389
f. TXT x44390
f. TXT x44391
f. TXT x44392
f. TXT x44393
f. TXT x44394
f. TXT x44395
f. TXT x44396
f. TXT x44397
f. TXT x44398
f. TXT x44399
f. TXT x44400
f. TXT x44401
f. TXT x44402
f. TXT x44403
f. TXT x44404
f. TXT x44405
f. TXT x44406
f. TXT x44407
f. TXT x44408
f. TXT x44409
f. TXT x44410
f. TXT x44411
f. TXT x44412
f. TXT x44413
f. TXT x44414
f. TXT x44415
$ORIGIN xc.x*.
f. TXT x44417
f. TXT x44418
f. TXT x44419
f. TXT x44420
f. TXT x44421
f. TXT x44422
f. TXT x44423
f. TXT x44424
f. TXT x44425
f. TXT x44426
f. TXT x44427
f. TXT x44428
f. TXT x44429
f. TXT x44430
f. TXT x44431
f. TXT x44432
f. TXT x44433
f. TXT x44434
f. TXT x44435
f. TXT x44436
f. TXT x44437
f. TXT x44438
f. TXT x44439
f. TXT x44440
f. TXT x44441
f. TXT x44442
f. TXT x44443
f. TXT x44444
f. TXT x44445
f. TXT x44446
f. TXT x44447
f. TXT x44448
f. TXT x44449
f. TXT x44450
f. TXT x44451
f. TXT x44452
f. TXT x44453
f. TXT x44454
f. TXT x44455
f. TXT x44456
f. TXT x44457
f. TXT x44458
f. TXT x44459
f. TXT x44460
f. TXT x44461
f. TXT x44462
f. TXT x44463
f. TXT x44464
f. TXT x44465
f. TXT x44466
f. TXT x44467
f. TXT x44468
f. TXT x44469
f. TXT x44470
f. TXT x44471
f. TXT x44472
f. TXT x44473
f. TXT x44474
f. TXT x44475
f. TXT x44476
f. TXT x44477
f. TXT x44478
f. TXT x44479
$ORIGIN z*y.a.
f. TXT x44481
f. TXT x44482
f. TXT x44483
f. TXT x44484
f. TXT x44485
f. TXT x44486
f. TXT x44487
f. TXT x44488
f. TXT x44489
f. TXT x44490
f. TXT x44491
f. TXT x44492
f. TXT x44493
f. TXT x44494
f. TXT x44495
f. TXT x44496
f. TXT x44497
f. TXT x44498
f. TXT x44499
f. TXT x44500
f. TXT x44501
f. TXT x44502
f. TXT x44503
f. TXT x44504
f. TXT x44505
f. TXT x44506
f. TXT x44507
f. TXT x44508
f. TXT x44509
f. TXT x44510
f. TXT x44511
f. TXT x44512
f. TXT x44513
f. TXT x44514
f. TXT x44515
f. TXT x44516
f. TXT x44517
f. TXT x44518
f. TXT x44519
f. TXT x44520
f. TXT x44521
f. TXT x44522
f. TXT x44523
f. TXT x44524
f. TXT x44525
f. TXT x44526
f. TXT x44527
f. TXT x44528
f. TXT x44529
f. TXT x44530
f. TXT x44531
f. TXT x44532
f. TXT x44533
f. TXT x44534
f. TXT x44535
f. TXT x44536
f. TXT x44537
f. TXT x44538
f. TXT x44539
f. TXT x44540
f. TXT x44541
f. TXT x44542
f. TXT x44543
 NS ax bzyc 0y
f. TXT x44545
f. TXT x44546
f. TXT x44547
f. TXT x44548
f. TXT x44549
f. TXT x44550
f. TXT x44551
f. TXT x44552
f. TXT x44553
f. TXT x44554
f. TXT x44555
f. TXT x44556
f. TXT x44557
f. TXT x44558
f. TXT x44559
f. TXT x44560
f. TXT x44561
f. TXT x44562
f. TXT x44563
f. TXT x44564
f. TXT x44565
f. TXT x44566
f. TXT x44567
f. TXT x44568
f. TXT x44569
f. TXT x44570
f. TXT x44571
f. TXT x44572
f. TXT x44573
f. TXT x44574
f. TXT x44575
f. TXT x44576
f. TXT x44577
f. TXT x44578
f. TXT x44579
f. TXT x44580
f. TXT x44581
f. TXT x44582
f. TXT x44583
f. TXT x44584
f. TXT x44585
f. TXT x44586
f. TXT x44587
f. TXT x44588
f. TXT x44589
f. TXT x44590
f. TXT x44591
f. TXT x44592
f. TXT x44593
f. TXT x44594
f. TXT x44595
f. TXT x44596
f. TXT x44597
f. TXT x44598
f. TXT x44599
f. TXT x44600
f. TXT x44601
f. TXT x44602
f. TXT x44603
f. TXT x44604
f. TXT x44605
f. TXT x44606
f. TXT x44607
@ TXT c bcy*
f. TXT x44609
f. TXT x44610
f. TXT x44611
f. TXT x44612
f. TXT x44613
f. TXT x44614
f. TXT x44615
f. TXT x44616
f. TXT x44617
f. TXT x44618
f. TXT x44619
f. TXT x44620
f. TXT x44621
f. TXT x44622
f. TXT x44623
f. TXT x44624
f. TXT x44625
f. TXT x44626
f. TXT x44627
f. TXT x44628
f. TXT x44629
f. TXT x44630
f. TXT x44631
f. TXT x44632
f. TXT x44633
f. TXT x44634
f. TXT x44635
f. TXT x44636
f. TXT x44637
f. TXT x44638
f. TXT x44639
f. TXT x44640
f. TXT x44641
f. TXT x44642
f. TXT x44643
f. TXT x44644
f. TXT x44645
f. TXT x44646
f. TXT x44647
f. TXT x44648
f. TXT x44649
f. TXT x44650
f. TXT x44651
f. TXT x44652
f. TXT x44653
f. TXT x44654
f. TXT x44655
f. TXT x44656
f. TXT x44657
f. TXT x44658
f. TXT x44659
f. TXT x44660
f. TXT x44661
f. TXT x44662
f. TXT x44663
f. TXT x44664
f. TXT x44665
f. TXT x44666
f. TXT x44667
f. TXT x44668
f. TXT x44669
f. TXT x44670
f. TXT x44671
@ TXT z cczx
f. TXT x44673
f. TXT x44674
f. TXT x44675
f. TXT x44676
f. TXT x44677
f. TXT x44678
f. TXT x44679
f. TXT x44680
f. TXT x44681
f. TXT x44682
f. TXT x44683
f. TXT x44684
f. TXT x44685
f. TXT x44686
f. TXT x44687
f. TXT x44688
f. TXT x44689
f. TXT x44690
f. TXT x44691
f. TXT x44692
f. TXT x44693
f. TXT x44694
f. TXT x44695
f. TXT x44696
f. TXT x44697
f. TXT x44698
f. TXT x44699
f. TXT x44700
f. TXT x44701
f. TXT x44702
f. TXT x44703
f. TXT x44704
f. TXT x44705
f. TXT x44706
f. TXT x44707
f. TXT x44708
f. TXT x44709
f. TXT x44710
f. TXT x44711
f. TXT x44712
f. TXT x44713
f. TXT x44714
f. TXT x44715
f. TXT x44716
f. TXT x44717
f. TXT x44718
f. TXT x44719
f. TXT x44720
f. TXT x44721
f. TXT x44722
f. TXT x44723
f. TXT x44724
f. TXT x44725
f. TXT x44726
f. TXT x44727
f. TXT x44728
f. TXT x44729
f. TXT x44730
f. TXT x44731
f. TXT x44732
f. TXT x44733
f. TXT x44734
f. TXT x44735
azy A yaba
f. TXT x44737
f. TXT x44738
f. TXT x44739
f. TXT x44740
f. TXT x44741
f. TXT x44742
f. TXT x44743
f. TXT x44744
f. TXT x44745
f. TXT x44746
f. TXT x44747
f. TXT x44748
f. TXT x44749
f. TXT x44750
f. TXT x44751
f. TXT x44752
f. TXT x44753
f. TXT x44754
f. TXT x44755
f. TXT x44756
f. TXT x44757
f. TXT x44758
f. TXT x44759
f. TXT x44760
f. TXT x44761
f. TXT x44762
f. TXT x44763
f. TXT x44764
f. TXT x44765
f. TXT x44766
f. TXT x44767
f. TXT x44768
f. TXT x44769
f. TXT x44770
f. TXT x44771
f. TXT x44772
f. TXT x44773
f. TXT x44774
f. TXT x44775
f. TXT x44776
f. TXT x44777
f. TXT x44778
f. TXT x44779
f. TXT x44780
f. TXT x44781
f. TXT x44782
f. TXT x44783
f. TXT x44784
f. TXT x44785
f. TXT x44786
f. TXT x44787
f. TXT x44788
f. TXT x44789
f. TXT x44790
f. TXT x44791
f. TXT x44792
f. TXT x44793
f. TXT x44794
f. TXT x44795
f. TXT x44796
f. TXT x44797
f. TXT x44798
f. TXT x44799
$TTL 4778964
f. TXT x44801
f. TXT x44802
f. TXT x44803
f. TXT x44804
f. TXT x44805
f. TXT x44806
f. TXT x44807
f. TXT x44808
f. TXT x44809
f. TXT x44810
f. TXT x44811
f. TXT x44812
f. TXT x44813
f. TXT x44814
f. TXT x44815
f. TXT x44816
f. TXT x44817
f. TXT x44818
f. TXT x44819
f. TXT x44820
f. TXT x44821
f. TXT x44822
f. TXT x44823
f. TXT x44824
f. TXT x44825
f. TXT x44826
f. TXT x44827
f. TXT x44828
f. TXT x44829
f. TXT x44830
f. TXT x44831
f. TXT x44832
f. TXT x44833
f. TXT x44834
f. TXT x44835
f. TXT x44836
f. TXT x44837
f. TXT x44838
f. TXT x44839
f. TXT x44840
f. TXT x44841
f. TXT x44842
f. TXT x44843
f. TXT x44844
f. TXT x44845
f. TXT x44846
f. TXT x44847
f. TXT x44848
f. TXT x44849
f. TXT x44850
f. TXT x44851
f. TXT x44852
f. TXT x44853
f. TXT x44854
f. TXT x44855
f. TXT x44856
f. TXT x44857
f. TXT x44858
f. TXT x44859
f. TXT x44860
f. TXT x44861
f. TXT x44862
f. TXT x44863
 NS 0 c
f. TXT x44865
f. TXT x44866
f. TXT x44867
f. TXT x44868
f. TXT x44869
f. TXT x44870
f. TXT x44871
f. TXT x44872
f. TXT x44873
f. TXT x44874
f. TXT x44875
f. TXT x44876
f. TXT x44877
f. TXT x44878
f. TXT x44879
f. TXT x44880
f. TXT x44881
f. TXT x44882
f. TXT x44883
f. TXT x44884
f. TXT x44885
f. TXT x44886
f. TXT x44887
f. TXT x44888
f. TXT x44889
f. TXT x44890
f. TXT x44891
f. TXT x44892
f. TXT x44893
f. TXT x44894
f. TXT x44895
f. TXT x44896
f. TXT x44897
f. TXT x44898
f. TXT x44899
f. TXT x44900
f. TXT x44901
f. TXT x44902
f. TXT x44903
f. TXT x44904
f. TXT x44905
f. TXT x44906
f. TXT x44907
f. TXT x44908
f. TXT x44909
f. TXT x44910
f. TXT x44911
f. TXT x44912
f. TXT x44913
f. TXT x44914
f. TXT x44915
f. TXT x44916
f. TXT x44917
f. TXT x44918
f. TXT x44919
f. TXT x44920
f. TXT x44921
f. TXT x44922
f. TXT x44923
f. TXT x44924
f. TXT x44925
f. TXT x44926
f. TXT x44927
$TTL 84179586
f. TXT x44929
f. TXT x44930
f. TXT x44931
f. TXT x44932
f. TXT x44933
f. TXT x44934
f. TXT x44935
f. TXT x44936
f. TXT x44937
f. TXT x44938
f. TXT x44939
f. TXT x44940
f. TXT x44941
f. TXT x44942
f. TXT x44943
f. TXT x44944
f. TXT x44945
f. TXT x44946
f. TXT x44947
f. TXT x44948
f. TXT x44949
f. TXT x44950
f. TXT x44951
f. TXT x44952
f. TXT x44953
f. TXT x44954
f. TXT x44955
f. TXT x44956
f. TXT x44957
f. TXT x44958
f. TXT x44959
f. TXT x44960
f. TXT x44961
f. TXT x44962
f. TXT x44963
f. TXT x44964
f. TXT x44965
f. TXT x44966
f. TXT x44967
f. TXT x44968
f. TXT x44969
f. TXT x44970
f. TXT x44971
f. TXT x44972
f. TXT x44973
f. TXT x44974
f. TXT x44975
f. TXT x44976
f. TXT x44977
f. TXT x44978
f. TXT x44979
f. TXT x44980
f. TXT x44981
f. TXT x44982
f. TXT x44983
f. TXT x44984
f. TXT x44985
f. TXT x44986
f. TXT x44987
f. TXT x44988
f. TXT x44989
f. TXT x44990
f. TXT x44991
y*bb.-c. A ax0
f. TXT x44993
f. TXT x44994
f. TXT x44995
f. TXT x44996
f. TXT x44997
f. TXT x44998
f. TXT x44999
f. TXT x45000
f. TXT x45001
f. TXT x45002
f. TXT x45003
f. TXT x45004
f. TXT x45005
f. TXT x45006
f. TXT x45007
f. TXT x45008
f. TXT x45009
f. TXT x45010
f. TXT x45011
f. TXT x45012
f. TXT x45013
f. TXT x45014
f. TXT x45015
f. TXT x45016
f. TXT x45017
f. TXT x45018
f. TXT x45019
f. TXT x45020
f. TXT x45021
f. TXT x45022
f. TXT x45023
f. TXT x45024
f. TXT x45025
f. TXT x45026
f. TXT x45027
f. TXT x45028
f. TXT x45029
f. TXT x45030
f. TXT x45031
f. TXT x45032
f. TXT x45033
f. TXT x45034
f. TXT x45035
f. TXT x45036
f. TXT x45037
f. TXT x45038
f. TXT x45039
f. TXT x45040
f. TXT x45041
f. TXT x45042
f. TXT x45043
f. TXT x45044
f. TXT x45045
f. TXT x45046
f. TXT x45047
f. TXT x45048
f. TXT x45049
f. TXT x45050
f. TXT x45051
f. TXT x45052
f. TXT x45053
f. TXT x45054
f. TXT x45055
$TTL 29202
f. TXT x45057
f. TXT x45058
f. TXT x45059
f. TXT x45060
f. TXT x45061
f. TXT x45062
f. TXT x45063
f. TXT x45064
f. TXT x45065
f. TXT x45066
f. TXT x45067
f. TXT x45068
f. TXT x45069
f. TXT x45070
f. TXT x45071
f. TXT x45072
f. TXT x45073
f. TXT x45074
f. TXT x45075
f. TXT x45076
f. TXT x45077
f. TXT x45078
f. TXT x45079
f. TXT x45080
f. TXT x45081
f. TXT x45082
f. TXT x45083
f. TXT x45084
f. TXT x45085
f. TXT x45086
f. TXT x45087
f. TXT x45088
f. TXT x45089
f. TXT x45090
f. TXT x45091
f. TXT x45092
f. TXT x45093
f. TXT x45094
f. TXT x45095
f. TXT x45096
f. TXT x45097
f. TXT x45098
f. TXT x45099
f. TXT x45100
f. TXT x45101
f. TXT x45102
f. TXT x45103
f. TXT x45104
f. TXT x45105
f. TXT x45106
f. TXT x45107
f. TXT x45108
f. TXT x45109
f. TXT x45110
f. TXT x45111
f. TXT x45112
f. TXT x45113
f. TXT x45114
f. TXT x45115
f. TXT x45116
f. TXT x45117
f. TXT x45118
f. TXT x45119
 TXT 0
f. TXT x45121
f. TXT x45122
f. TXT x45123
f. TXT x45124
f. TXT x45125
f. TXT x45126
f. TXT x45127
f. TXT x45128
f. TXT x45129
f. TXT x45130
f. TXT x45131
f. TXT x45132
f. TXT x45133
f. TXT x45134
f. TXT x45135
f. TXT x45136
f. TXT x45137
f. TXT x45138
f. TXT x45139
f. TXT x45140
f. TXT x45141
f. TXT x45142
f. TXT x45143
f. TXT x45144
f. TXT x45145
f. TXT x45146
f. TXT x45147
f. TXT x45148
f. TXT x45149
f. TXT x45150
f. TXT x45151
f. TXT x45152
f. TXT x45153
f. TXT x45154
f. TXT x45155
f. TXT x45156
f. TXT x45157
f. TXT x45158
f. TXT x45159
f. TXT x45160
f. TXT x45161
f. TXT x45162
f. TXT x45163
f. TXT x45164
f. TXT x45165
f. TXT x45166
f. TXT x45167
f. TXT x45168
f. TXT x45169
f. TXT x45170
f. TXT x45171
f. TXT x45172
f. TXT x45173
f. TXT x45174
f. TXT x45175
f. TXT x45176
f. TXT x45177
f. TXT x45178
f. TXT x45179
f. TXT x45180
f. TXT x45181
f. TXT x45182
f. TXT x45183
@ A -ca -*y0 bc
f. TXT x45185
f. TXT x45186
f. TXT x45187
f. TXT x45188
f. TXT x45189
f. TXT x45190
f. TXT x45191
f. TXT x45192
f. TXT x45193
f. TXT x45194
f. TXT x45195
f. TXT x45196
f. TXT x45197
f. TXT x45198
f. TXT x45199
f. TXT x45200
f. TXT x45201
f. TXT x45202
f. TXT x45203
f. TXT x45204
f. TXT x45205
f. TXT x45206
f. TXT x45207
f. TXT x45208
f. TXT x45209
f. TXT x45210
f. TXT x45211
f. TXT x45212
f. TXT x45213
f. TXT x45214
f. TXT x45215
f. TXT x45216
f. TXT x45217
f. TXT x45218
f. TXT x45219
f. TXT x45220
f. TXT x45221
f. TXT x45222
f. TXT x45223
f. TXT x45224
f. TXT x45225
f. TXT x45226
f. TXT x45227
f. TXT x45228
f. TXT x45229
f. TXT x45230
f. TXT x45231
f. TXT x45232
f. TXT x45233
f. TXT x45234
f. TXT x45235
f. TXT x45236
f. TXT x45237
f. TXT x45238
f. TXT x45239
f. TXT x45240
f. TXT x45241
f. TXT x45242
f. TXT x45243
f. TXT x45244
f. TXT x45245
f. TXT x45246
f. TXT x45247
c TXT z
f. TXT x45249
f. TXT x45250
f. TXT x45251
f. TXT x45252
f. TXT x45253
f. TXT x45254
f. TXT x45255
f. TXT x45256
f. TXT x45257
f. TXT x45258
f. TXT x45259
f. TXT x45260
f. TXT x45261
f. TXT x45262
f. TXT x45263
f. TXT x45264
f. TXT x45265
f. TXT x45266
f. TXT x45267
f. TXT x45268
f. TXT x45269
f. TXT x45270
f. TXT x45271
f. TXT x45272
f. TXT x45273
f. TXT x45274
f. TXT x45275
f. TXT x45276
f. TXT x45277
f. TXT x45278
f. TXT x45279
f. TXT x45280
f. TXT x45281
f. TXT x45282
f. TXT x45283
f. TXT x45284
f. TXT x45285
f. TXT x45286
f. TXT x45287
f. TXT x45288
f. TXT x45289
f. TXT x45290
f. TXT x45291
f. TXT x45292
f. TXT x45293
f. TXT x45294
f. TXT x45295
f. TXT x45296
f. TXT x45297
f. TXT x45298
f. TXT x45299
f. TXT x45300
f. TXT x45301
f. TXT x45302
f. TXT x45303
f. TXT x45304
f. TXT x45305
f. TXT x45306
f. TXT x45307
f. TXT x45308
f. TXT x45309
f. TXT x45310
f. TXT x45311
b TXT bcc- 0by az*
f. TXT x45313
f. TXT x45314
f. TXT x45315
f. TXT x45316
f. TXT x45317
f. TXT x45318
f. TXT x45319
f. TXT x45320
f. TXT x45321
f. TXT x45322
f. TXT x45323
f. TXT x45324
f. TXT x45325
f. TXT x45326
f. TXT x45327
f. TXT x45328
f. TXT x45329
f. TXT x45330
f. TXT x45331
f. TXT x45332
f. TXT x45333
f. TXT x45334
f. TXT x45335
f. TXT x45336
f. TXT x45337
f. TXT x45338
f. TXT x45339
f. TXT x45340
f. TXT x45341
f. TXT x45342
f. TXT x45343
f. TXT x45344
f. TXT x45345
f. TXT x45346
f. TXT x45347
f. TXT x45348
f. TXT x45349
f. TXT x45350
f. TXT x45351
f. TXT x45352
f. TXT x45353
f. TXT x45354
f. TXT x45355
f. TXT x45356
f. TXT x45357
f. TXT x45358
f. TXT x45359
f. TXT x45360
f. TXT x45361
f. TXT x45362
f. TXT x45363
f. TXT x45364
f. TXT x45365
f. TXT x45366
f. TXT x45367
f. TXT x45368
f. TXT x45369
f. TXT x45370
f. TXT x45371
f. TXT x45372
f. TXT x45373
f. TXT x45374
f. TXT x45375
 NS ax* b
f. TXT x45377
f. TXT x45378
f. TXT x45379
f. TXT x45380
f. TXT x45381
f. TXT x45382
f. TXT x45383
f. TXT x45384
f. TXT x45385
f. TXT x45386
f. TXT x45387
f. TXT x45388
f. TXT x45389
f. TXT x45390
f. TXT x45391
f. TXT x45392
f. TXT x45393
f. TXT x45394
f. TXT x45395
f. TXT x45396
f. TXT x45397
f. TXT x45398
f. TXT x45399
f. TXT x45400
f. TXT x45401
f. TXT x45402
f. TXT x45403
f. TXT x45404
f. TXT x45405
f. TXT x45406
f. TXT x45407
f. TXT x45408
f. TXT x45409
f. TXT x45410
f. TXT x45411
f. TXT x45412
f. TXT x45413
f. TXT x45414
f. TXT x45415
f. TXT x45416
f. TXT x45417
f. TXT x45418
f. TXT x45419
f. TXT x45420
f. TXT x45421
f. TXT x45422
f. TXT x45423
f. TXT x45424
f. TXT x45425
f. TXT x45426
f. TXT x45427
f. TXT x45428
f. TXT x45429
f. TXT x45430
f. TXT x45431
f. TXT x45432
f. TXT x45433
f. TXT x45434
f. TXT x45435
f. TXT x45436
f. TXT x45437
f. TXT x45438
f. TXT x45439
 NS -a zabc
f. TXT x45441
f. TXT x45442
f. TXT x45443
f. TXT x45444
f. TXT x45445
f. TXT x45446
f. TXT x45447
f. TXT x45448
f. TXT x45449
f. TXT x45450
f. TXT x45451
f. TXT x45452
f. TXT x45453
f. TXT x45454
f. TXT x45455
f. TXT x45456
f. TXT x45457
f. TXT x45458
f. TXT x45459
f. TXT x45460
f. TXT x45461
f. TXT x45462
f. TXT x45463
f. TXT x45464
f. TXT x45465
f. TXT x45466
f. TXT x45467
f. TXT x45468
f. TXT x45469
f. TXT x45470
f. TXT x45471
f. TXT x45472
f. TXT x45473
f. TXT x45474
f. TXT x45475
f. TXT x45476
f. TXT x45477
f. TXT x45478
f. TXT x45479
f. TXT x45480
f. TXT x45481
f. TXT x45482
f. TXT x45483
f. TXT x45484
f. TXT x45485
f. TXT x45486
f. TXT x45487
f. TXT x45488
f. TXT x45489
f. TXT x45490
f. TXT x45491
f. TXT x45492
f. TXT x45493
f. TXT x45494
f. TXT x45495
f. TXT x45496
f. TXT x45497
f. TXT x45498
f. TXT x45499
f. TXT x45500
f. TXT x45501
f. TXT x45502
f. TXT x45503
z TXT zzzb *y
f. TXT x45505
f. TXT x45506
f. TXT x45507
f. TXT x45508
f. TXT x45509
f. TXT x45510
f. TXT x45511
f. TXT x45512
f. TXT x45513
f. TXT x45514
f. TXT x45515
f. TXT x45516
f. TXT x45517
f. TXT x45518
f. TXT x45519
f. TXT x45520
f. TXT x45521
f. TXT x45522
f. TXT x45523
f. TXT x45524
f. TXT x45525
f. TXT x45526
f. TXT x45527
f. TXT x45528
f. TXT x45529
f. TXT x45530
f. TXT x45531
f. TXT x45532
f. TXT x45533
f. TXT x45534
f. TXT x45535
f. TXT x45536
f. TXT x45537
f. TXT x45538
f. TXT x45539
f. TXT x45540
f. TXT x45541
f. TXT x45542
f. TXT x45543
f. TXT x45544
f. TXT x45545
f. TXT x45546
f. TXT x45547
f. TXT x45548
f. TXT x45549
f. TXT x45550
f. TXT x45551
f. TXT x45552
f. TXT x45553
f. TXT x45554
f. TXT x45555
f. TXT x45556
f. TXT x45557
f. TXT x45558
f. TXT x45559
f. TXT x45560
f. TXT x45561
f. TXT x45562
f. TXT x45563
f. TXT x45564
f. TXT x45565
f. TXT x45566
f. TXT x45567
@ TXT b- bzc
f. TXT x45569
f. TXT x45570
f. TXT x45571
f. TXT x45572
f. TXT x45573
f. TXT x45574
f. TXT x45575
f. TXT x45576
f. TXT x45577
f. TXT x45578
f. TXT x45579
f. TXT x45580
f. TXT x45581
f. TXT x45582
f. TXT x45583
f. TXT x45584
f. TXT x45585
f. TXT x45586
f. TXT x45587
f. TXT x45588
f. TXT x45589
f. TXT x45590
f. TXT x45591
f. TXT x45592
f. TXT x45593
f. TXT x45594
f. TXT x45595
f. TXT x45596
f. TXT x45597
f. TXT x45598
f. TXT x45599
f. TXT x45600
f. TXT x45601
f. TXT x45602
f. TXT x45603
f. TXT x45604
f. TXT x45605
f. TXT x45606
f. TXT x45607
f. TXT x45608
f. TXT x45609
f. TXT x45610
f. TXT x45611
f. TXT x45612
f. TXT x45613
f. TXT x45614
f. TXT x45615
f. TXT x45616
f. TXT x45617
f. TXT x45618
f. TXT x45619
f. TXT x45620
f. TXT x45621
f. TXT x45622
f. TXT x45623
f. TXT x45624
f. TXT x45625
f. TXT x45626
f. TXT x45627
f. TXT x45628
f. TXT x45629
f. TXT x45630
f. TXT x45631
 NS zzzc xcb
f. TXT x45633
f. TXT x45634
f. TXT x45635
f. TXT x45636
f. TXT x45637
f. TXT x45638
f. TXT x45639
f. TXT x45640
f. TXT x45641
f. TXT x45642
f. TXT x45643
f. TXT x45644
f. TXT x45645
f. TXT x45646
f. TXT x45647
f. TXT x45648
f. TXT x45649
f. TXT x45650
f. TXT x45651
f. TXT x45652
f. TXT x45653
f. TXT x45654
f. TXT x45655
f. TXT x45656
f. TXT x45657
f. TXT x45658
f. TXT x45659
f. TXT x45660
f. TXT x45661
f. TXT x45662
f. TXT x45663
f. TXT x45664
f. TXT x45665
f. TXT x45666
f. TXT x45667
f. TXT x45668
f. TXT x45669
f. TXT x45670
f. TXT x45671
f. TXT x45672
f. TXT x45673
f. TXT x45674
f. TXT x45675
f. TXT x45676
f. TXT x45677
f. TXT x45678
f. TXT x45679
f. TXT x45680
f. TXT x45681
f. TXT x45682
f. TXT x45683
f. TXT x45684
f. TXT x45685
f. TXT x45686
f. TXT x45687
f. TXT x45688
f. TXT x45689
f. TXT x45690
f. TXT x45691
f. TXT x45692
f. TXT x45693
f. TXT x45694
f. TXT x45695
$ORIGIN x*.bxx.
f. TXT x45697
f. TXT x45698
f. TXT x45699
f. TXT x45700
f. TXT x45701
f. TXT x45702
f. TXT x45703
f. TXT x45704
f. TXT x45705
f. TXT x45706
f. TXT x45707
f. TXT x45708
f. TXT x45709
f. TXT x45710
f. TXT x45711
f. TXT x45712
f. TXT x45713
f. TXT x45714
f. TXT x45715
f. TXT x45716
f. TXT x45717
f. TXT x45718
f. TXT x45719
f. TXT x45720
f. TXT x45721
f. TXT x45722
f. TXT x45723
f. TXT x45724
f. TXT x45725
f. TXT x45726
f. TXT x45727
f. TXT x45728
f. TXT x45729
f. TXT x45730
f. TXT x45731
f. TXT x45732
f. TXT x45733
f. TXT x45734
f. TXT x45735
f. TXT x45736
f. TXT x45737
f. TXT x45738
f. TXT x45739
f. TXT x45740
f. TXT x45741
f. TXT x45742
f. TXT x45743
f. TXT x45744
f. TXT x45745
f. TXT x45746
f. TXT x45747
f. TXT x45748
f. TXT x45749
f. TXT x45750
f. TXT x45751
f. TXT x45752
f. TXT x45753
f. TXT x45754
f. TXT x45755
f. TXT x45756
f. TXT x45757
f. TXT x45758
f. TXT x45759
; yc-
f. TXT x45761
f. TXT x45762
f. TXT x45763
f. TXT x45764
f. TXT x45765
f. TXT x45766
f. TXT x45767
f. TXT x45768
f. TXT x45769
f. TXT x45770
f. TXT x45771
f. TXT x45772
f. TXT x45773
f. TXT x45774
f. TXT x45775
f. TXT x45776
f. TXT x45777
f. TXT x45778
f. TXT x45779
f. TXT x45780
f. TXT x45781
f. TXT x45782
f. TXT x45783
f. TXT x45784
f. TXT x45785
f. TXT x45786
f. TXT x45787
f. TXT x45788
f. TXT x45789
f. TXT x45790
f. TXT x45791
f. TXT x45792
f. TXT x45793
f. TXT x45794
f. TXT x45795
f. TXT x45796
f. TXT x45797
f. TXT x45798
f. TXT x45799
f. TXT x45800
f. TXT x45801
f. TXT x45802
f. TXT x45803
f. TXT x45804
f. TXT x45805
f. TXT x45806
f. TXT x45807
f. TXT x45808
f. TXT x45809
f. TXT x45810
f. TXT x45811
f. TXT x45812
f. TXT x45813
f. TXT x45814
f. TXT x45815
f. TXT x45816
f. TXT x45817
f. TXT x45818
f. TXT x45819
f. TXT x45820
f. TXT x45821
f. TXT x45822
f. TXT x45823
* TXT *yy 0 xc-
f. TXT x45825
f. TXT x45826
f. TXT x45827
f. TXT x45828
f. TXT x45829
f. TXT x45830
f. TXT x45831
f. TXT x45832
f. TXT x45833
f. TXT x45834
f. TXT x45835
f. TXT x45836
f. TXT x45837
f. TXT x45838
f. TXT x45839
f. TXT x45840
f. TXT x45841
f. TXT x45842
f. TXT x45843
f. TXT x45844
f. TXT x45845
f. TXT x45846
f. TXT x45847
f. TXT x45848
f. TXT x45849
f. TXT x45850
f. TXT x45851
f. TXT x45852
f. TXT x45853
f. TXT x45854
f. TXT x45855
f. TXT x45856
f. TXT x45857
f. TXT x45858
f. TXT x45859
f. TXT x45860
f. TXT x45861
f. TXT x45862
f. TXT x45863
f. TXT x45864
f. TXT x45865
f. TXT x45866
f. TXT x45867
f. TXT x45868
f. TXT x45869
f. TXT x45870
f. TXT x45871
f. TXT x45872
f. TXT x45873
f. TXT x45874
f. TXT x45875
f. TXT x45876
f. TXT x45877
f. TXT x45878
f. TXT x45879
f. TXT x45880
f. TXT x45881
f. TXT x45882
f. TXT x45883
f. TXT x45884
f. TXT x45885
f. TXT x45886
f. TXT x45887
cy0c TXT azcx
f. TXT x45889
f. TXT x45890
f. TXT x45891
f. TXT x45892
f. TXT x45893
f. TXT x45894
f. TXT x45895
f. TXT x45896
f. TXT x45897
f. TXT x45898
f. TXT x45899
f. TXT x45900
f. TXT x45901
f. TXT x45902
f. TXT x45903
f. TXT x45904
f. TXT x45905
f. TXT x45906
f. TXT x45907
f. TXT x45908
f. TXT x45909
f. TXT x45910
f. TXT x45911
f. TXT x45912
f. TXT x45913
f. TXT x45914
f. TXT x45915
f. TXT x45916
f. TXT x45917
f. TXT x45918
f. TXT x45919
f. TXT x45920
f. TXT x45921
f. TXT x45922
f. TXT x45923
f. TXT x45924
f. TXT x45925
f. TXT x45926
f. TXT x45927
f. TXT x45928
f. TXT x45929
f. TXT x45930
f. TXT x45931
f. TXT x45932
f. TXT x45933
f. TXT x45934
f. TXT x45935
f. TXT x45936
f. TXT x45937
f. TXT x45938
f. TXT x45939
f. TXT x45940
f. TXT x45941
f. TXT x45942
f. TXT x45943
f. TXT x45944
f. TXT x45945
f. TXT x45946
f. TXT x45947
f. TXT x45948
f. TXT x45949
f. TXT x45950
f. TXT x45951
 NS acaa
f. TXT x45953
f. TXT x45954
f. TXT x45955
f. TXT x45956
f. TXT x45957
f. TXT x45958
f. TXT x45959
f. TXT x45960
f. TXT x45961
f. TXT x45962
f. TXT x45963
f. TXT x45964
f. TXT x45965
f. TXT x45966
f. TXT x45967
f. TXT x45968
f. TXT x45969
f. TXT x45970
f. TXT x45971
f. TXT x45972
f. TXT x45973
f. TXT x45974
f. TXT x45975
f. TXT x45976
f. TXT x45977
f. TXT x45978
f. TXT x45979
f. TXT x45980
f. TXT x45981
f. TXT x45982
f. TXT x45983
f. TXT x45984
f. TXT x45985
f. TXT x45986
f. TXT x45987
f. TXT x45988
f. TXT x45989
f. TXT x45990
f. TXT x45991
f. TXT x45992
f. TXT x45993
f. TXT x45994
f. TXT x45995
f. TXT x45996
f. TXT x45997
f. TXT x45998
f. TXT x45999
f. TXT x46000
f. TXT x46001
f. TXT x46002
f. TXT x46003
f. TXT x46004
f. TXT x46005
f. TXT x46006
f. TXT x46007
f. TXT x46008
f. TXT x46009
f. TXT x46010
f. TXT x46011
f. TXT x46012
f. TXT x46013
f. TXT x46014
f. TXT x46015
$ORIGIN a.
f. TXT x46017
f. TXT x46018
f. TXT x46019
f. TXT x46020
f. TXT x46021
f. TXT x46022
f. TXT x46023
f. TXT x46024
f. TXT x46025
f. TXT x46026
f. TXT x46027
f. TXT x46028
f. TXT x46029
f. TXT x46030
f. TXT x46031
f. TXT x46032
f. TXT x46033
f. TXT x46034
f. TXT x46035
f. TXT x46036
f. TXT x46037
f. TXT x46038
f. TXT x46039
f. TXT x46040
f. TXT x46041
f. TXT x46042
f. TXT x46043
f. TXT x46044
f. TXT x46045
f. TXT x46046
f. TXT x46047
f. TXT x46048
f. TXT x46049
f. TXT x46050
f. TXT x46051
f. TXT x46052
f. TXT x46053
f. TXT x46054
f. TXT x46055
f. TXT x46056
f. TXT x46057
f. TXT x46058
f. TXT x46059
f. TXT x46060
f. TXT x46061
f. TXT x46062
f. TXT x46063
f. TXT x46064
f. TXT x46065
f. TXT x46066
f. TXT x46067
f. TXT x46068
f. TXT x46069
f. TXT x46070
f. TXT x46071
f. TXT x46072
f. TXT x46073
f. TXT x46074
f. TXT x46075
f. TXT x46076
f. TXT x46077
f. TXT x46078
f. TXT x46079

f. TXT x46081
f. TXT x46082
f. TXT x46083
f. TXT x46084
f. TXT x46085
f. TXT x46086
f. TXT x46087
f. TXT x46088
f. TXT x46089
f. TXT x46090
f. TXT x46091
f. TXT x46092
f. TXT x46093
f. TXT x46094
f. TXT x46095
f. TXT x46096
f. TXT x46097
f. TXT x46098
f. TXT x46099
f. TXT x46100
f. TXT x46101
f. TXT x46102
f. TXT x46103
f. TXT x46104
f. TXT x46105
f. TXT x46106
f. TXT x46107
f. TXT x46108
f. TXT x46109
f. TXT x46110
f. TXT x46111
f. TXT x46112
f. TXT x46113
f. TXT x46114
f. TXT x46115
f. TXT x46116
f. TXT x46117
f. TXT x46118
f. TXT x46119
f. TXT x46120
f. TXT x46121
f. TXT x46122
f. TXT x46123
f. TXT x46124
f. TXT x46125
f. TXT x46126
f. TXT x46127
f. TXT x46128
f. TXT x46129
f. TXT x46130
f. TXT x46131
f. TXT x46132
f. TXT x46133
f. TXT x46134
f. TXT x46135
f. TXT x46136
f. TXT x46137
f. TXT x46138
f. TXT x46139
f. TXT x46140
f. TXT x46141
f. TXT x46142
f. TXT x46143
c-x TXT 0 -c
f. TXT x46145
f. TXT x46146
f. TXT x46147
f. TXT x46148
f. TXT x46149
f. TXT x46150
f. TXT x46151
f. TXT x46152
f. TXT x46153
f. TXT x46154
f. TXT x46155
f. TXT x46156
f. TXT x46157
f. TXT x46158
f. TXT x46159
f. TXT x46160
f. TXT x46161
f. TXT x46162
f. TXT x46163
f. TXT x46164
f. TXT x46165
f. TXT x46166
f. TXT x46167
f. TXT x46168
f. TXT x46169
f. TXT x46170
f. TXT x46171
f. TXT x46172
f. TXT x46173
f. TXT x46174
f. TXT x46175
f. TXT x46176
f. TXT x46177
f. TXT x46178
f. TXT x46179
f. TXT x46180
f. TXT x46181
f. TXT x46182
f. TXT x46183
f. TXT x46184
f. TXT x46185
f. TXT x46186
f. TXT x46187
f. TXT x46188
f. TXT x46189
f. TXT x46190
f. TXT x46191
f. TXT x46192
f. TXT x46193
f. TXT x46194
f. TXT x46195
f. TXT x46196
f. TXT x46197
f. TXT x46198
f. TXT x46199
f. TXT x46200
f. TXT x46201
f. TXT x46202
f. TXT x46203
f. TXT x46204
f. TXT x46205
f. TXT x46206
f. TXT x46207
@ A za*a bc*x
f. TXT x46209
f. TXT x46210
f. TXT x46211
f. TXT x46212
f. TXT x46213
f. TXT x46214
f. TXT x46215
f. TXT x46216
f. TXT x46217
f. TXT x46218
f. TXT x46219
f. TXT x46220
f. TXT x46221
f. TXT x46222
f. TXT x46223
f. TXT x46224
f. TXT x46225
f. TXT x46226
f. TXT x46227
f. TXT x46228
f. TXT x46229
f. TXT x46230
f. TXT x46231
f. TXT x46232
f. TXT x46233
f. TXT x46234
f. TXT x46235
f. TXT x46236
f. TXT x46237
f. TXT x46238
f. TXT x46239
f. TXT x46240
f. TXT x46241
f. TXT x46242
f. TXT x46243
f. TXT x46244
f. TXT x46245
f. TXT x46246
f. TXT x46247
f. TXT x46248
f. TXT x46249
f. TXT x46250
f. TXT x46251
f. TXT x46252
f. TXT x46253
f. TXT x46254
f. TXT x46255
f. TXT x46256
f. TXT x46257
f. TXT x46258
f. TXT x46259
f. TXT x46260
f. TXT x46261
f. TXT x46262
f. TXT x46263
f. TXT x46264
f. TXT x46265
f. TXT x46266
f. TXT x46267
f. TXT x46268
f. TXT x46269
f. TXT x46270
f. TXT x46271
x. TXT -ab a* x
f. TXT x46273
f. TXT x46274
f. TXT x46275
f. TXT x46276
f. TXT x46277
f. TXT x46278
f. TXT x46279
f. TXT x46280
f. TXT x46281
f. TXT x46282
f. TXT x46283
f. TXT x46284
f. TXT x46285
f. TXT x46286
f. TXT x46287
f. TXT x46288
f. TXT x46289
f. TXT x46290
f. TXT x46291
f. TXT x46292
f. TXT x46293
f. TXT x46294
f. TXT x46295
f. TXT x46296
f. TXT x46297
f. TXT x46298
f. TXT x46299
f. TXT x46300
f. TXT x46301
f. TXT x46302
f. TXT x46303
f. TXT x46304
f. TXT x46305
f. TXT x46306
f. TXT x46307
f. TXT x46308
f. TXT x46309
f. TXT x46310
f. TXT x46311
f. TXT x46312
f. TXT x46313
f. TXT x46314
f. TXT x46315
f. TXT x46316
f. TXT x46317
f. TXT x46318
f. TXT x46319
f. TXT x46320
f. TXT x46321
f. TXT x46322
f. TXT x46323
f. TXT x46324
f. TXT x46325
f. TXT x46326
f. TXT x46327
f. TXT x46328
f. TXT x46329
f. TXT x46330
f. TXT x46331
f. TXT x46332
f. TXT x46333
f. TXT x46334
f. TXT x46335
 A c
f. TXT x46337
f. TXT x46338
f. TXT x46339
f. TXT x46340
f. TXT x46341
f. TXT x46342
f. TXT x46343
f. TXT x46344
f. TXT x46345
f. TXT x46346
f. TXT x46347
f. TXT x46348
f. TXT x46349
f. TXT x46350
f. TXT x46351
f. TXT x46352
f. TXT x46353
f. TXT x46354
f. TXT x46355
f. TXT x46356
f. TXT x46357
f. TXT x46358
f. TXT x46359
f. TXT x46360
f. TXT x46361
f. TXT x46362
f. TXT x46363
f. TXT x46364
f. TXT x46365
f. TXT x46366
f. TXT x46367
f. TXT x46368
f. TXT x46369
f. TXT x46370
f. TXT x46371
f. TXT x46372
f. TXT x46373
f. TXT x46374
f. TXT x46375
f. TXT x46376
f. TXT x46377
f. TXT x46378
f. TXT x46379
f. TXT x46380
f. TXT x46381
f. TXT x46382
f. TXT x46383
f. TXT x46384
f. TXT x46385
f. TXT x46386
f. TXT x46387
f. TXT x46388
f. TXT x46389
f. TXT x46390
f. TXT x46391
f. TXT x46392
f. TXT x46393
f. TXT x46394
f. TXT x46395
f. TXT x46396
f. TXT x46397
f. TXT x46398
f. TXT x46399
@ A b* cb
f. TXT x46401
f. TXT x46402
f. TXT x46403
f. TXT x46404
f. TXT x46405
f. TXT x46406
f. TXT x46407
f. TXT x46408
f. TXT x46409
f. TXT x46410
f. TXT x46411
f. TXT x46412
f. TXT x46413
f. TXT x46414
f. TXT x46415
f. TXT x46416
f. TXT x46417
f. TXT x46418
f. TXT x46419
f. TXT x46420
f. TXT x46421
f. TXT x46422
f. TXT x46423
f. TXT x46424
f. TXT x46425
f. TXT x46426
f. TXT x46427
f. TXT x46428
f. TXT x46429
f. TXT x46430
f. TXT x46431
f. TXT x46432
f. TXT x46433
f. TXT x46434
f. TXT x46435
f. TXT x46436
f. TXT x46437
f. TXT x46438
f. TXT x46439
f. TXT x46440
f. TXT x46441
f. TXT x46442
f. TXT x46443
f. TXT x46444
f. TXT x46445
f. TXT x46446
f. TXT x46447
f. TXT x46448
f. TXT x46449
f. TXT x46450
f. TXT x46451
f. TXT x46452
f. TXT x46453
f. TXT x46454
f. TXT x46455
f. TXT x46456
f. TXT x46457
f. TXT x46458
f. TXT x46459
f. TXT x46460
f. TXT x46461
f. TXT x46462
f. TXT x46463
z. NS bax zy bxa0
f. TXT x46465
f. TXT x46466
f. TXT x46467
f. TXT x46468
f. TXT x46469
f. TXT x46470
f. TXT x46471
f. TXT x46472
f. TXT x46473
f. TXT x46474
f. TXT x46475
f. TXT x46476
f. TXT x46477
f. TXT x46478
f. TXT x46479
f. TXT x46480
f. TXT x46481
f. TXT x46482
f. TXT x46483
f. TXT x46484
f. TXT x46485
f. TXT x46486
f. TXT x46487
f. TXT x46488
f. TXT x46489
f. TXT x46490
f. TXT x46491
f. TXT x46492
f. TXT x46493
f. TXT x46494
f. TXT x46495
f. TXT x46496
f. TXT x46497
f. TXT x46498
f. TXT x46499
f. TXT x46500
f. TXT x46501
f. TXT x46502
f. TXT x46503
f. TXT x46504
f. TXT x46505
f. TXT x46506
f. TXT x46507
f. TXT x46508
f. TXT x46509
f. TXT x46510
f. TXT x46511
f. TXT x46512
f. TXT x46513
f. TXT x46514
f. TXT x46515
f. TXT x46516
f. TXT x46517
f. TXT x46518
f. TXT x46519
f. TXT x46520
f. TXT x46521
f. TXT x46522
f. TXT x46523
f. TXT x46524
f. TXT x46525
f. TXT x46526
f. TXT x46527

f. TXT x46529
f. TXT x46530
f. TXT x46531
f. TXT x46532
f. TXT x46533
f. TXT x46534
f. TXT x46535
f. TXT x46536
f. TXT x46537
f. TXT x46538
f. TXT x46539
f. TXT x46540
f. TXT x46541
f. TXT x46542
f. TXT x46543
f. TXT x46544
f. TXT x46545
f. TXT x46546
f. TXT x46547
f. TXT x46548
f. TXT x46549
f. TXT x46550
f. TXT x46551
f. TXT x46552
f. TXT x46553
f. TXT x46554
f. TXT x46555
f. TXT x46556
f. TXT x46557
f. TXT x46558
f. TXT x46559
f. TXT x46560
f. TXT x46561
f. TXT x46562
f. TXT x46563
f. TXT x46564
f. TXT x46565
f. TXT x46566
f. TXT x46567
f. TXT x46568
f. TXT x46569
f. TXT x46570
f. TXT x46571
f. TXT x46572
f. TXT x46573
f. TXT x46574
f. TXT x46575
f. TXT x46576
f. TXT x46577
f. TXT x46578
f. TXT x46579
f. TXT x46580
f. TXT x46581
f. TXT x46582
f. TXT x46583
f. TXT x46584
f. TXT x46585
f. TXT x46586
f. TXT x46587
f. TXT x46588
f. TXT x46589
f. TXT x46590
f. TXT x46591
@ A x0 z c**
f. TXT x46593
f. TXT x46594
f. TXT x46595
f. TXT x46596
f. TXT x46597
f. TXT x46598
f. TXT x46599
f. TXT x46600
f. TXT x46601
f. TXT x46602
f. TXT x46603
f. TXT x46604
f. TXT x46605
f. TXT x46606
f. TXT x46607
f. TXT x46608
f. TXT x46609
f. TXT x46610
f. TXT x46611
f. TXT x46612
f. TXT x46613
f. TXT x46614
f. TXT x46615
f. TXT x46616
f. TXT x46617
f. TXT x46618
f. TXT x46619
f. TXT x46620
f. TXT x46621
f. TXT x46622
f. TXT x46623
f. TXT x46624
f. TXT x46625
f. TXT x46626
f. TXT x46627
f. TXT x46628
f. TXT x46629
f. TXT x46630
f. TXT x46631
f. TXT x46632
f. TXT x46633
f. TXT x46634
f. TXT x46635
f. TXT x46636
f. TXT x46637
f. TXT x46638
f. TXT x46639
f. TXT x46640
f. TXT x46641
f. TXT x46642
f. TXT x46643
f. TXT x46644
f. TXT x46645
f. TXT x46646
f. TXT x46647
f. TXT x46648
f. TXT x46649
f. TXT x46650
f. TXT x46651
f. TXT x46652
f. TXT x46653
f. TXT x46654
f. TXT x46655
@ A 0xac cax 0ab
f. TXT x46657
f. TXT x46658
f. TXT x46659
f. TXT x46660
f. TXT x46661
f. TXT x46662
f. TXT x46663
f. TXT x46664
f. TXT x46665
f. TXT x46666
f. TXT x46667
f. TXT x46668
f. TXT x46669
f. TXT x46670
f. TXT x46671
f. TXT x46672
f. TXT x46673
f. TXT x46674
f. TXT x46675
f. TXT x46676
f. TXT x46677
f. TXT x46678
f. TXT x46679
f. TXT x46680
f. TXT x46681
f. TXT x46682
f. TXT x46683
f. TXT x46684
f. TXT x46685
f. TXT x46686
f. TXT x46687
f. TXT x46688
f. TXT x46689
f. TXT x46690
f. TXT x46691
f. TXT x46692
f. TXT x46693
f. TXT x46694
f. TXT x46695
f. TXT x46696
f. TXT x46697
f. TXT x46698
f. TXT x46699
f. TXT x46700
f. TXT x46701
f. TXT x46702
f. TXT x46703
f. TXT x46704
f. TXT x46705
f. TXT x46706
f. TXT x46707
f. TXT x46708
f. TXT x46709
f. TXT x46710
f. TXT x46711
f. TXT x46712
f. TXT x46713
f. TXT x46714
f. TXT x46715
f. TXT x46716
f. TXT x46717
f. TXT x46718
f. TXT x46719
$TTL 147
f. TXT x46721
f. TXT x46722
f. TXT x46723
f. TXT x46724
f. TXT x46725
f. TXT x46726
f. TXT x46727
f. TXT x46728
f. TXT x46729
f. TXT x46730
f. TXT x46731
f. TXT x46732
f. TXT x46733
f. TXT x46734
f. TXT x46735
f. TXT x46736
f. TXT x46737
f. TXT x46738
f. TXT x46739
f. TXT x46740
f. TXT x46741
f. TXT x46742
f. TXT x46743
f. TXT x46744
f. TXT x46745
f. TXT x46746
f. TXT x46747
f. TXT x46748
f. TXT x46749
f. TXT x46750
f. TXT x46751
f. TXT x46752
f. TXT x46753
f. TXT x46754
f. TXT x46755
f. TXT x46756
f. TXT x46757
f. TXT x46758
f. TXT x46759
f. TXT x46760
f. TXT x46761
f. TXT x46762
f. TXT x46763
f. TXT x46764
f. TXT x46765
f. TXT x46766
f. TXT x46767
f. TXT x46768
f. TXT x46769
f. TXT x46770
f. TXT x46771
f. TXT x46772
f. TXT x46773
f. TXT x46774
f. TXT x46775
f. TXT x46776
f. TXT x46777
f. TXT x46778
f. TXT x46779
f. TXT x46780
f. TXT x46781
f. TXT x46782
f. TXT x46783
cz TXT z
f. TXT x46785
f. TXT x46786
f. TXT x46787
f. TXT x46788
f. TXT x46789
f. TXT x46790
f. TXT x46791
f. TXT x46792
f. TXT x46793
f. TXT x46794
f. TXT x46795
f. TXT x46796
f. TXT x46797
f. TXT x46798
f. TXT x46799
f. TXT x46800
f. TXT x46801
f. TXT x46802
f. TXT x46803
f. TXT x46804
f. TXT x46805
f. TXT x46806
f. TXT x46807
f. TXT x46808
f. TXT x46809
f. TXT x46810
f. TXT x46811
f. TXT x46812
f. TXT x46813
f. TXT x46814
f. TXT x46815
f. TXT x46816
f. TXT x46817
f. TXT x46818
f. TXT x46819
f. TXT x46820
f. TXT x46821
f. TXT x46822
f. TXT x46823
f. TXT x46824
f. TXT x46825
f. TXT x46826
f. TXT x46827
f. TXT x46828
f. TXT x46829
f. TXT x46830
f. TXT x46831
f. TXT x46832
f. TXT x46833
f. TXT x46834
f. TXT x46835
f. TXT x46836
f. TXT x46837
f. TXT x46838
f. TXT x46839
f. TXT x46840
f. TXT x46841
f. TXT x46842
f. TXT x46843
f. TXT x46844
f. TXT x46845
f. TXT x46846
f. TXT x46847
$ORIGIN z-.
f. TXT x46849
f. TXT x46850
f. TXT x46851
f. TXT x46852
f. TXT x46853
f. TXT x46854
f. TXT x46855
f. TXT x46856
f. TXT x46857
f. TXT x46858
f. TXT x46859
f. TXT x46860
f. TXT x46861
f. TXT x46862
f. TXT x46863
f. TXT x46864
f. TXT x46865
f. TXT x46866
f. TXT x46867
f. TXT x46868
f. TXT x46869
f. TXT x46870
f. TXT x46871
f. TXT x46872
f. TXT x46873
f. TXT x46874
f. TXT x46875
f. TXT x46876
f. TXT x46877
f. TXT x46878
f. TXT x46879
f. TXT x46880
f. TXT x46881
f. TXT x46882
f. TXT x46883
f. TXT x46884
f. TXT x46885
f. TXT x46886
f. TXT x46887
f. TXT x46888
f. TXT x46889
f. TXT x46890
f. TXT x46891
f. TXT x46892
f. TXT x46893
f. TXT x46894
f. TXT x46895
f. TXT x46896
f. TXT x46897
f. TXT x46898
f. TXT x46899
f. TXT x46900
f. TXT x46901
f. TXT x46902
f. TXT x46903
f. TXT x46904
f. TXT x46905
f. TXT x46906
f. TXT x46907
f. TXT x46908
f. TXT x46909
f. TXT x46910
f. TXT x46911
axc NS yyz -y-
f. TXT x46913
f. TXT x46914
f. TXT x46915
f. TXT x46916
f. TXT x46917
f. TXT x46918
f. TXT x46919
f. TXT x46920
f. TXT x46921
f. TXT x46922
f. TXT x46923
f. TXT x46924
f. TXT x46925
f. TXT x46926
f. TXT x46927
f. TXT x46928
f. TXT x46929
f. TXT x46930
f. TXT x46931
f. TXT x46932
f. TXT x46933
f. TXT x46934
f. TXT x46935
f. TXT x46936
f. TXT x46937
f. TXT x46938
f. TXT x46939
f. TXT x46940
f. TXT x46941
f. TXT x46942
f. TXT x46943
f. TXT x46944
f. TXT x46945
f. TXT x46946
f. TXT x46947
f. TXT x46948
f. TXT x46949
f. TXT x46950
f. TXT x46951
f. TXT x46952
f. TXT x46953
f. TXT x46954
f. TXT x46955
f. TXT x46956
f. TXT x46957
f. TXT x46958
f. TXT x46959
f. TXT x46960
f. TXT x46961
f. TXT x46962
f. TXT x46963
f. TXT x46964
f. TXT x46965
f. TXT x46966
f. TXT x46967
f. TXT x46968
f. TXT x46969
f. TXT x46970
f. TXT x46971
f. TXT x46972
f. TXT x46973
f. TXT x46974
f. TXT x46975
 TXT *a a 0y
f. TXT x46977
f. TXT x46978
f. TXT x46979
f. TXT x46980
f. TXT x46981
f. TXT x46982
f. TXT x46983
f. TXT x46984
f. TXT x46985
f. TXT x46986
f. TXT x46987
f. TXT x46988
f. TXT x46989
f. TXT x46990
f. TXT x46991
f. TXT x46992
f. TXT x46993
f. TXT x46994
f. TXT x46995
f. TXT x46996
f. TXT x46997
f. TXT x46998
f. TXT x46999
f. TXT x47000
f. TXT x47001
f. TXT x47002
f. TXT x47003
f. TXT x47004
f. TXT x47005
f. TXT x47006
f. TXT x47007
f. TXT x47008
f. TXT x47009
f. TXT x47010
f. TXT x47011
f. TXT x47012
f. TXT x47013
f. TXT x47014
f. TXT x47015
f. TXT x47016
f. TXT x47017
f. TXT x47018
f. TXT x47019
f. TXT x47020
f. TXT x47021
f. TXT x47022
f. TXT x47023
f. TXT x47024
f. TXT x47025
f. TXT x47026
f. TXT x47027
f. TXT x47028
f. TXT x47029
f. TXT x47030
f. TXT x47031
f. TXT x47032
f. TXT x47033
f. TXT x47034
f. TXT x47035
f. TXT x47036
f. TXT x47037
f. TXT x47038
f. TXT x47039
bzy.c. TXT -
f. TXT x47041
f. TXT x47042
f. TXT x47043
f. TXT x47044
f. TXT x47045
f. TXT x47046
f. TXT x47047
f. TXT x47048
f. TXT x47049
f. TXT x47050
f. TXT x47051
f. TXT x47052
f. TXT x47053
f. TXT x47054
f. TXT x47055
f. TXT x47056
f. TXT x47057
f. TXT x47058
f. TXT x47059
f. TXT x47060
f. TXT x47061
f. TXT x47062
f. TXT x47063
f. TXT x47064
f. TXT x47065
f. TXT x47066
f. TXT x47067
f. TXT x47068
f. TXT x47069
f. TXT x47070
f. TXT x47071
f. TXT x47072
f. TXT x47073
f. TXT x47074
f. TXT x47075
f. TXT x47076
f. TXT x47077
f. TXT x47078
f. TXT x47079
f. TXT x47080
f. TXT x47081
f. TXT x47082
f. TXT x47083
f. TXT x47084
f. TXT x47085
f. TXT x47086
f. TXT x47087
f. TXT x47088
f. TXT x47089
f. TXT x47090
f. TXT x47091
f. TXT x47092
f. TXT x47093
f. TXT x47094
f. TXT x47095
f. TXT x47096
f. TXT x47097
f. TXT x47098
f. TXT x47099
f. TXT x47100
f. TXT x47101
f. TXT x47102
f. TXT x47103
$ORIGIN 0.
f. TXT x47105
f. TXT x47106
f. TXT x47107
f. TXT x47108
f. TXT x47109
f. TXT x47110
f. TXT x47111
f. TXT x47112
f. TXT x47113
f. TXT x47114
f. TXT x47115
f. TXT x47116
f. TXT x47117
f. TXT x47118
f. TXT x47119
f. TXT x47120
f. TXT x47121
f. TXT x47122
f. TXT x47123
f. TXT x47124
f. TXT x47125
f. TXT x47126
f. TXT x47127
f. TXT x47128
f. TXT x47129
f. TXT x47130
f. TXT x47131
f. TXT x47132
f. TXT x47133
f. TXT x47134
f. TXT x47135
f. TXT x47136
f. TXT x47137
f. TXT x47138
f. TXT x47139
f. TXT x47140
f. TXT x47141
f. TXT x47142
f. TXT x47143
f. TXT x47144
f. TXT x47145
f. TXT x47146
f. TXT x47147
f. TXT x47148
f. TXT x47149
f. TXT x47150
f. TXT x47151
f. TXT x47152
f. TXT x47153
f. TXT x47154
f. TXT x47155
f. TXT x47156
f. TXT x47157
f. TXT x47158
f. TXT x47159
f. TXT x47160
f. TXT x47161
f. TXT x47162
f. TXT x47163
f. TXT x47164
f. TXT x47165
f. TXT x47166
f. TXT x47167
@ A b y0-0 xa
f. TXT x47169
f. TXT x47170
f. TXT x47171
f. TXT x47172
f. TXT x47173
f. TXT x47174
f. TXT x47175
f. TXT x47176
f. TXT x47177
f. TXT x47178
f. TXT x47179
f. TXT x47180
f. TXT x47181
f. TXT x47182
f. TXT x47183
f. TXT x47184
f. TXT x47185
f. TXT x47186
f. TXT x47187
f. TXT x47188
f. TXT x47189
f. TXT x47190
f. TXT x47191
f. TXT x47192
f. TXT x47193
f. TXT x47194
f. TXT x47195
f. TXT x47196
f. TXT x47197
f. TXT x47198
f. TXT x47199
f. TXT x47200
f. TXT x47201
f. TXT x47202
f. TXT x47203
f. TXT x47204
f. TXT x47205
f. TXT x47206
f. TXT x47207
f. TXT x47208
f. TXT x47209
f. TXT x47210
f. TXT x47211
f. TXT x47212
f. TXT x47213
f. TXT x47214
f. TXT x47215
f. TXT x47216
f. TXT x47217
f. TXT x47218
f. TXT x47219
f. TXT x47220
f. TXT x47221
f. TXT x47222
f. TXT x47223
f. TXT x47224
f. TXT x47225
f. TXT x47226
f. TXT x47227
f. TXT x47228
f. TXT x47229
f. TXT x47230
f. TXT x47231
z*yz A *yb
f. TXT x47233
f. TXT x47234
f. TXT x47235
f. TXT x47236
f. TXT x47237
f. TXT x47238
f. TXT x47239
f. TXT x47240
f. TXT x47241
f. TXT x47242
f. TXT x47243
f. TXT x47244
f. TXT x47245
f. TXT x47246
f. TXT x47247
f. TXT x47248
f. TXT x47249
f. TXT x47250
f. TXT x47251
f. TXT x47252
f. TXT x47253
f. TXT x47254
f. TXT x47255
f. TXT x47256
f. TXT x47257
f. TXT x47258
f. TXT x47259
f. TXT x47260
f. TXT x47261
f. TXT x47262
f. TXT x47263
f. TXT x47264
f. TXT x47265
f. TXT x47266
f. TXT x47267
f. TXT x47268
f. TXT x47269
f. TXT x47270
f. TXT x47271
f. TXT x47272
f. TXT x47273
f. TXT x47274
f. TXT x47275
f. TXT x47276
f. TXT x47277
f. TXT x47278
f. TXT x47279
f. TXT x47280
f. TXT x47281
f. TXT x47282
f. TXT x47283
f. TXT x47284
f. TXT x47285
f. TXT x47286
f. TXT x47287
f. TXT x47288
f. TXT x47289
f. TXT x47290
f. TXT x47291
f. TXT x47292
f. TXT x47293
f. TXT x47294
f. TXT x47295
$ORIGIN c*x-.az.
f. TXT x47297
f. TXT x47298
f. TXT x47299
f. TXT x47300
f. TXT x47301
f. TXT x47302
f. TXT x47303
f. TXT x47304
f. TXT x47305
f. TXT x47306
f. TXT x47307
f. TXT x47308
f. TXT x47309
f. TXT x47310
f. TXT x47311
f. TXT x47312
f. TXT x47313
f. TXT x47314
f. TXT x47315
f. TXT x47316
f. TXT x47317
f. TXT x47318
f. TXT x47319
f. TXT x47320
f. TXT x47321
f. TXT x47322
f. TXT x47323
f. TXT x47324
f. TXT x47325
f. TXT x47326
f. TXT x47327
f. TXT x47328
f. TXT x47329
f. TXT x47330
f. TXT x47331
f. TXT x47332
f. TXT x47333
f. TXT x47334
f. TXT x47335
f. TXT x47336
f. TXT x47337
f. TXT x47338
f. TXT x47339
f. TXT x47340
f. TXT x47341
f. TXT x47342
f. TXT x47343
f. TXT x47344
f. TXT x47345
f. TXT x47346
f. TXT x47347
f. TXT x47348
f. TXT x47349
f. TXT x47350
f. TXT x47351
f. TXT x47352
f. TXT x47353
f. TXT x47354
f. TXT x47355
f. TXT x47356
f. TXT x47357
f. TXT x47358
f. TXT x47359
-c A z xa0
f. TXT x47361
f. TXT x47362
f. TXT x47363
f. TXT x47364
f. TXT x47365
f. TXT x47366
f. TXT x47367
f. TXT x47368
f. TXT x47369
f. TXT x47370
f. TXT x47371
f. TXT x47372
f. TXT x47373
f. TXT x47374
f. TXT x47375
f. TXT x47376
f. TXT x47377
f. TXT x47378
f. TXT x47379
f. TXT x47380
f. TXT x47381
f. TXT x47382
f. TXT x47383
f. TXT x47384
f. TXT x47385
f. TXT x47386
f. TXT x47387
f. TXT x47388
f. TXT x47389
f. TXT x47390
f. TXT x47391
f. TXT x47392
f. TXT x47393
f. TXT x47394
f. TXT x47395
f. TXT x47396
f. TXT x47397
f. TXT x47398
f. TXT x47399
f. TXT x47400
f. TXT x47401
f. TXT x47402
f. TXT x47403
f. TXT x47404
f. TXT x47405
f. TXT x47406
f. TXT x47407
f. TXT x47408
f. TXT x47409
f. TXT x47410
f. TXT x47411
f. TXT x47412
f. TXT x47413
f. TXT x47414
f. TXT x47415
f. TXT x47416
f. TXT x47417
f. TXT x47418
f. TXT x47419
f. TXT x47420
f. TXT x47421
f. TXT x47422
f. TXT x47423
00 A y zx- c*z*
f. TXT x47425
f. TXT x47426
f. TXT x47427
f. TXT x47428
f. TXT x47429
f. TXT x47430
f. TXT x47431
f. TXT x47432
f. TXT x47433
f. TXT x47434
f. TXT x47435
f. TXT x47436
f. TXT x47437
f. TXT x47438
f. TXT x47439
f. TXT x47440
f. TXT x47441
f. TXT x47442
f. TXT x47443
f. TXT x47444
f. TXT x47445
f. TXT x47446
f. TXT x47447
f. TXT x47448
f. TXT x47449
f. TXT x47450
f. TXT x47451
f. TXT x47452
f. TXT x47453
f. TXT x47454
f. TXT x47455
f. TXT x47456
f. TXT x47457
f. TXT x47458
f. TXT x47459
f. TXT x47460
f. TXT x47461
f. TXT x47462
f. TXT x47463
f. TXT x47464
f. TXT x47465
f. TXT x47466
f. TXT x47467
f. TXT x47468
f. TXT x47469
f. TXT x47470
f. TXT x47471
f. TXT x47472
f. TXT x47473
f. TXT x47474
f. TXT x47475
f. TXT x47476
f. TXT x47477
f. TXT x47478
f. TXT x47479
f. TXT x47480
f. TXT x47481
f. TXT x47482
f. TXT x47483
f. TXT x47484
f. TXT x47485
f. TXT x47486
f. TXT x47487
 NS z0z *
f. TXT x47489
f. TXT x47490
f. TXT x47491
f. TXT x47492
f. TXT x47493
f. TXT x47494
f. TXT x47495
f. TXT x47496
f. TXT x47497
f. TXT x47498
f. TXT x47499
f. TXT x47500
f. TXT x47501
f. TXT x47502
f. TXT x47503
f. TXT x47504
f. TXT x47505
f. TXT x47506
f. TXT x47507
f. TXT x47508
f. TXT x47509
f. TXT x47510
f. TXT x47511
f. TXT x47512
f. TXT x47513
f. TXT x47514
f. TXT x47515
f. TXT x47516
f. TXT x47517
f. TXT x47518
f. TXT x47519
f. TXT x47520
f. TXT x47521
f. TXT x47522
f. TXT x47523
f. TXT x47524
f. TXT x47525
f. TXT x47526
f. TXT x47527
f. TXT x47528
f. TXT x47529
f. TXT x47530
f. TXT x47531
f. TXT x47532
f. TXT x47533
f. TXT x47534
f. TXT x47535
f. TXT x47536
f. TXT x47537
f. TXT x47538
f. TXT x47539
f. TXT x47540
f. TXT x47541
f. TXT x47542
f. TXT x47543
f. TXT x47544
f. TXT x47545
f. TXT x47546
f. TXT x47547
f. TXT x47548
f. TXT x47549
f. TXT x47550
f. TXT x47551
b-x- A x -z 0ay
f. TXT x47553
f. TXT x47554
f. TXT x47555
f. TXT x47556
f. TXT x47557
f. TXT x47558
f. TXT x47559
f. TXT x47560
f. TXT x47561
f. TXT x47562
f. TXT x47563
f. TXT x47564
f. TXT x47565
f. TXT x47566
f. TXT x47567
f. TXT x47568
f. TXT x47569
f. TXT x47570
f. TXT x47571
f. TXT x47572
f. TXT x47573
f. TXT x47574
f. TXT x47575
f. TXT x47576
f. TXT x47577
f. TXT x47578
f. TXT x47579
f. TXT x47580
f. TXT x47581
f. TXT x47582
f. TXT x47583
f. TXT x47584
f. TXT x47585
f. TXT x47586
f. TXT x47587
f. TXT x47588
f. TXT x47589
f. TXT x47590
f. TXT x47591
f. TXT x47592
f. TXT x47593
f. TXT x47594
f. TXT x47595
f. TXT x47596
f. TXT x47597
f. TXT x47598
f. TXT x47599
f. TXT x47600
f. TXT x47601
f. TXT x47602
f. TXT x47603
f. TXT x47604
f. TXT x47605
f. TXT x47606
f. TXT x47607
f. TXT x47608
f. TXT x47609
f. TXT x47610
f. TXT x47611
f. TXT x47612
f. TXT x47613
f. TXT x47614
f. TXT x47615
x*z NS c c
f. TXT x47617
f. TXT x47618
f. TXT x47619
f. TXT x47620
f. TXT x47621
f. TXT x47622
f. TXT x47623
f. TXT x47624
f. TXT x47625
f. TXT x47626
f. TXT x47627
f. TXT x47628
f. TXT x47629
f. TXT x47630
f. TXT x47631
f. TXT x47632
f. TXT x47633
f. TXT x47634
f. TXT x47635
f. TXT x47636
f. TXT x47637
f. TXT x47638
f. TXT x47639
f. TXT x47640
f. TXT x47641
f. TXT x47642
f. TXT x47643
f. TXT x47644
f. TXT x47645
f. TXT x47646
f. TXT x47647
f. TXT x47648
f. TXT x47649
f. TXT x47650
f. TXT x47651
f. TXT x47652
f. TXT x47653
f. TXT x47654
f. TXT x47655
f. TXT x47656
f. TXT x47657
f. TXT x47658
f. TXT x47659
f. TXT x47660
f. TXT x47661
f. TXT x47662
f. TXT x47663
f. TXT x47664
f. TXT x47665
f. TXT x47666
f. TXT x47667
f. TXT x47668
f. TXT x47669
f. TXT x47670
f. TXT x47671
f. TXT x47672
f. TXT x47673
f. TXT x47674
f. TXT x47675
f. TXT x47676
f. TXT x47677
f. TXT x47678
f. TXT x47679
 TXT b x*y0
f. TXT x47681
f. TXT x47682
f. TXT x47683
f. TXT x47684
f. TXT x47685
f. TXT x47686
f. TXT x47687
f. TXT x47688
f. TXT x47689
f. TXT x47690
f. TXT x47691
f. TXT x47692
f. TXT x47693
f. TXT x47694
f. TXT x47695
f. TXT x47696
f. TXT x47697
f. TXT x47698
f. TXT x47699
f. TXT x47700
f. TXT x47701
f. TXT x47702
f. TXT x47703
f. TXT x47704
f. TXT x47705
f. TXT x47706
f. TXT x47707
f. TXT x47708
f. TXT x47709
f. TXT x47710
f. TXT x47711
f. TXT x47712
f. TXT x47713
f. TXT x47714
f. TXT x47715
f. TXT x47716
f. TXT x47717
f. TXT x47718
f. TXT x47719
f. TXT x47720
f. TXT x47721
f. TXT x47722
f. TXT x47723
f. TXT x47724
f. TXT x47725
f. TXT x47726
f. TXT x47727
f. TXT x47728
f. TXT x47729
f. TXT x47730
f. TXT x47731
f. TXT x47732
f. TXT x47733
f. TXT x47734
f. TXT x47735
f. TXT x47736
f. TXT x47737
f. TXT x47738
f. TXT x47739
f. TXT x47740
f. TXT x47741
f. TXT x47742
f. TXT x47743
@ A * *xay
f. TXT x47745
f. TXT x47746
f. TXT x47747
f. TXT x47748
f. TXT x47749
f. TXT x47750
f. TXT x47751
f. TXT x47752
f. TXT x47753
f. TXT x47754
f. TXT x47755
f. TXT x47756
f. TXT x47757
f. TXT x47758
f. TXT x47759
f. TXT x47760
f. TXT x47761
f. TXT x47762
f. TXT x47763
f. TXT x47764
f. TXT x47765
f. TXT x47766
f. TXT x47767
f. TXT x47768
f. TXT x47769
f. TXT x47770
f. TXT x47771
f. TXT x47772
f. TXT x47773
f. TXT x47774
f. TXT x47775
f. TXT x47776
f. TXT x47777
f. TXT x47778
f. TXT x47779
f. TXT x47780
f. TXT x47781
f. TXT x47782
f. TXT x47783
f. TXT x47784
f. TXT x47785
f. TXT x47786
f. TXT x47787
f. TXT x47788
f. TXT x47789
f. TXT x47790
f. TXT x47791
f. TXT x47792
f. TXT x47793
f. TXT x47794
f. TXT x47795
f. TXT x47796
f. TXT x47797
f. TXT x47798
f. TXT x47799
f. TXT x47800
f. TXT x47801
f. TXT x47802
f. TXT x47803
f. TXT x47804
f. TXT x47805
f. TXT x47806
f. TXT x47807
-y. A -c cb a*--
f. TXT x47809
f. TXT x47810
f. TXT x47811
f. TXT x47812
f. TXT x47813
f. TXT x47814
f. TXT x47815
f. TXT x47816
f. TXT x47817
f. TXT x47818
f. TXT x47819
f. TXT x47820
f. TXT x47821
f. TXT x47822
f. TXT x47823
f. TXT x47824
f. TXT x47825
f. TXT x47826
f. TXT x47827
f. TXT x47828
f. TXT x47829
f. TXT x47830
f. TXT x47831
f. TXT x47832
f. TXT x47833
f. TXT x47834
f. TXT x47835
f. TXT x47836
f. TXT x47837
f. TXT x47838
f. TXT x47839
f. TXT x47840
f. TXT x47841
f. TXT x47842
f. TXT x47843
f. TXT x47844
f. TXT x47845
f. TXT x47846
f. TXT x47847
f. TXT x47848
f. TXT x47849
f. TXT x47850
f. TXT x47851
f. TXT x47852
f. TXT x47853
f. TXT x47854
f. TXT x47855
f. TXT x47856
f. TXT x47857
f. TXT x47858
f. TXT x47859
f. TXT x47860
f. TXT x47861
f. TXT x47862
f. TXT x47863
f. TXT x47864
f. TXT x47865
f. TXT x47866
f. TXT x47867
f. TXT x47868
f. TXT x47869
f. TXT x47870
f. TXT x47871
@ A a
f. TXT x47873
f. TXT x47874
f. TXT x47875
f. TXT x47876
f. TXT x47877
f. TXT x47878
f. TXT x47879
f. TXT x47880
f. TXT x47881
f. TXT x47882
f. TXT x47883
f. TXT x47884
f. TXT x47885
f. TXT x47886
f. TXT x47887
f. TXT x47888
f. TXT x47889
f. TXT x47890
f. TXT x47891
f. TXT x47892
f. TXT x47893
f. TXT x47894
f. TXT x47895
f. TXT x47896
f. TXT x47897
f. TXT x47898
f. TXT x47899
f. TXT x47900
f. TXT x47901
f. TXT x47902
f. TXT x47903
f. TXT x47904
f. TXT x47905
f. TXT x47906
f. TXT x47907
f. TXT x47908
f. TXT x47909
f. TXT x47910
f. TXT x47911
f. TXT x47912
f. TXT x47913
f. TXT x47914
f. TXT x47915
f. TXT x47916
f. TXT x47917
f. TXT x47918
f. TXT x47919
f. TXT x47920
f. TXT x47921
f. TXT x47922
f. TXT x47923
f. TXT x47924
f. TXT x47925
f. TXT x47926
f. TXT x47927
f. TXT x47928
f. TXT x47929
f. TXT x47930
f. TXT x47931
f. TXT x47932
f. TXT x47933
f. TXT x47934
f. TXT x47935

f. TXT x47937
f. TXT x47938
f. TXT x47939
f. TXT x47940
f. TXT x47941
f. TXT x47942
f. TXT x47943
f. TXT x47944
f. TXT x47945
f. TXT x47946
f. TXT x47947
f. TXT x47948
f. TXT x47949
f. TXT x47950
f. TXT x47951
f. TXT x47952
f. TXT x47953
f. TXT x47954
f. TXT x47955
f. TXT x47956
f. TXT x47957
f. TXT x47958
f. TXT x47959
f. TXT x47960
f. TXT x47961
f. TXT x47962
f. TXT x47963
f. TXT x47964
f. TXT x47965
f. TXT x47966
f. TXT x47967
f. TXT x47968
f. TXT x47969
f. TXT x47970
f. TXT x47971
f. TXT x47972
f. TXT x47973
f. TXT x47974
f. TXT x47975
f. TXT x47976
f. TXT x47977
f. TXT x47978
f. TXT x47979
f. TXT x47980
f. TXT x47981
f. TXT x47982
f. TXT x47983
f. TXT x47984
f. TXT x47985
f. TXT x47986
f. TXT x47987
f. TXT x47988
f. TXT x47989
f. TXT x47990
f. TXT x47991
f. TXT x47992
f. TXT x47993
f. TXT x47994
f. TXT x47995
f. TXT x47996
f. TXT x47997
f. TXT x47998
f. TXT x47999
*.zcxz. TXT *0*y
f. TXT x48001
f. TXT x48002
f. TXT x48003
f. TXT x48004
f. TXT x48005
f. TXT x48006
f. TXT x48007
f. TXT x48008
f. TXT x48009
f. TXT x48010
f. TXT x48011
f. TXT x48012
f. TXT x48013
f. TXT x48014
f. TXT x48015
f. TXT x48016
f. TXT x48017
f. TXT x48018
f. TXT x48019
f. TXT x48020
f. TXT x48021
f. TXT x48022
f. TXT x48023
f. TXT x48024
f. TXT x48025
f. TXT x48026
f. TXT x48027
f. TXT x48028
f. TXT x48029
f. TXT x48030
f. TXT x48031
f. TXT x48032
f. TXT x48033
f. TXT x48034
f. TXT x48035
f. TXT x48036
f. TXT x48037
f. TXT x48038
f. TXT x48039
f. TXT x48040
f. TXT x48041
f. TXT x48042
f. TXT x48043
f. TXT x48044
f. TXT x48045
f. TXT x48046
f. TXT x48047
f. TXT x48048
f. TXT x48049
f. TXT x48050
f. TXT x48051
f. TXT x48052
f. TXT x48053
f. TXT x48054
f. TXT x48055
f. TXT x48056
f. TXT x48057
f. TXT x48058
f. TXT x48059
f. TXT x48060
f. TXT x48061
f. TXT x48062
f. TXT x48063
ycz*.z*c-. NS b cyy y
f. TXT x48065
f. TXT x48066
f. TXT x48067
f. TXT x48068
f. TXT x48069
f. TXT x48070
f. TXT x48071
f. TXT x48072
f. TXT x48073
f. TXT x48074
f. TXT x48075
f. TXT x48076
f. TXT x48077
f. TXT x48078
f. TXT x48079
f. TXT x48080
f. TXT x48081
f. TXT x48082
f. TXT x48083
f. TXT x48084
f. TXT x48085
f. TXT x48086
f. TXT x48087
f. TXT x48088
f. TXT x48089
f. TXT x48090
f. TXT x48091
f. TXT x48092
f. TXT x48093
f. TXT x48094
f. TXT x48095
f. TXT x48096
f. TXT x48097
f. TXT x48098
f. TXT x48099
f. TXT x48100
f. TXT x48101
f. TXT x48102
f. TXT x48103
f. TXT x48104
f. TXT x48105
f. TXT x48106
f. TXT x48107
f. TXT x48108
f. TXT x48109
f. TXT x48110
f. TXT x48111
f. TXT x48112
f. TXT x48113
f. TXT x48114
f. TXT x48115
f. TXT x48116
f. TXT x48117
f. TXT x48118
f. TXT x48119
f. TXT x48120
f. TXT x48121
f. TXT x48122
f. TXT x48123
f. TXT x48124
f. TXT x48125
f. TXT x48126
f. TXT x48127
$TTL 4294967295
f. TXT x48129
f. TXT x48130
f. TXT x48131
f. TXT x48132
f. TXT x48133
f. TXT x48134
f. TXT x48135
f. TXT x48136
f. TXT x48137
f. TXT x48138
f. TXT x48139
f. TXT x48140
f. TXT x48141
f. TXT x48142
f. TXT x48143
f. TXT x48144
f. TXT x48145
f. TXT x48146
f. TXT x48147
f. TXT x48148
f. TXT x48149
f. TXT x48150
f. TXT x48151
f. TXT x48152
f. TXT x48153
f. TXT x48154
f. TXT x48155
f. TXT x48156
f. TXT x48157
f. TXT x48158
f. TXT x48159
f. TXT x48160
f. TXT x48161
f. TXT x48162
f. TXT x48163
f. TXT x48164
f. TXT x48165
f. TXT x48166
f. TXT x48167
f. TXT x48168
f. TXT x48169
f. TXT x48170
f. TXT x48171
f. TXT x48172
f. TXT x48173
f. TXT x48174
f. TXT x48175
f. TXT x48176
f. TXT x48177
f. TXT x48178
f. TXT x48179
f. TXT x48180
f. TXT x48181
f. TXT x48182
f. TXT x48183
f. TXT x48184
f. TXT x48185
f. TXT x48186
f. TXT x48187
f. TXT x48188
f. TXT x48189
f. TXT x48190
f. TXT x48191
 TXT *x*
f. TXT x48193
f. TXT x48194
f. TXT x48195
f. TXT x48196
f. TXT x48197
f. TXT x48198
f. TXT x48199
f. TXT x48200
f. TXT x48201
f. TXT x48202
f. TXT x48203
f. TXT x48204
f. TXT x48205
f. TXT x48206
f. TXT x48207
f. TXT x48208
f. TXT x48209
f. TXT x48210
f. TXT x48211
f. TXT x48212
f. TXT x48213
f. TXT x48214
f. TXT x48215
f. TXT x48216
f. TXT x48217
f. TXT x48218
f. TXT x48219
f. TXT x48220
f. TXT x48221
f. TXT x48222
f. TXT x48223
f. TXT x48224
f. TXT x48225
f. TXT x48226
f. TXT x48227
f. TXT x48228
f. TXT x48229
f. TXT x48230
f. TXT x48231
f. TXT x48232
f. TXT x48233
f. TXT x48234
f. TXT x48235
f. TXT x48236
f. TXT x48237
f. TXT x48238
f. TXT x48239
f. TXT x48240
f. TXT x48241
f. TXT x48242
f. TXT x48243
f. TXT x48244
f. TXT x48245
f. TXT x48246
f. TXT x48247
f. TXT x48248
f. TXT x48249
f. TXT x48250
f. TXT x48251
f. TXT x48252
f. TXT x48253
f. TXT x48254
f. TXT x48255
@ TXT bbzc y0 *a
f. TXT x48257
f. TXT x48258
f. TXT x48259
f. TXT x48260
f. TXT x48261
f. TXT x48262
f. TXT x48263
f. TXT x48264
f. TXT x48265
f. TXT x48266
f. TXT x48267
f. TXT x48268
f. TXT x48269
f. TXT x48270
f. TXT x48271
f. TXT x48272
f. TXT x48273
f. TXT x48274
f. TXT x48275
f. TXT x48276
f. TXT x48277
f. TXT x48278
f. TXT x48279
f. TXT x48280
f. TXT x48281
f. TXT x48282
f. TXT x48283
f. TXT x48284
f. TXT x48285
f. TXT x48286
f. TXT x48287
f. TXT x48288
f. TXT x48289
f. TXT x48290
f. TXT x48291
f. TXT x48292
f. TXT x48293
f. TXT x48294
f. TXT x48295
f. TXT x48296
f. TXT x48297
f. TXT x48298
f. TXT x48299
f. TXT x48300
f. TXT x48301
f. TXT x48302
f. TXT x48303
f. TXT x48304
f. TXT x48305
f. TXT x48306
f. TXT x48307
f. TXT x48308
f. TXT x48309
f. TXT x48310
f. TXT x48311
f. TXT x48312
f. TXT x48313
f. TXT x48314
f. TXT x48315
f. TXT x48316
f. TXT x48317
f. TXT x48318
f. TXT x48319
 TXT x zb xc*0
f. TXT x48321
f. TXT x48322
f. TXT x48323
f. TXT x48324
f. TXT x48325
f. TXT x48326
f. TXT x48327
f. TXT x48328
f. TXT x48329
f. TXT x48330
f. TXT x48331
f. TXT x48332
f. TXT x48333
f. TXT x48334
f. TXT x48335
f. TXT x48336
f. TXT x48337
f. TXT x48338
f. TXT x48339
f. TXT x48340
f. TXT x48341
f. TXT x48342
f. TXT x48343
f. TXT x48344
f. TXT x48345
f. TXT x48346
f. TXT x48347
f. TXT x48348
f. TXT x48349
f. TXT x48350
f. TXT x48351
f. TXT x48352
f. TXT x48353
f. TXT x48354
f. TXT x48355
f. TXT x48356
f. TXT x48357
f. TXT x48358
f. TXT x48359
f. TXT x48360
f. TXT x48361
f. TXT x48362
f. TXT x48363
f. TXT x48364
f. TXT x48365
f. TXT x48366
f. TXT x48367
f. TXT x48368
f. TXT x48369
f. TXT x48370
f. TXT x48371
f. TXT x48372
f. TXT x48373
f. TXT x48374
f. TXT x48375
f. TXT x48376
f. TXT x48377
f. TXT x48378
f. TXT x48379
f. TXT x48380
f. TXT x48381
f. TXT x48382
f. TXT x48383
 TXT *0z0
f. TXT x48385
f. TXT x48386
f. TXT x48387
f. TXT x48388
f. TXT x48389
f. TXT x48390
f. TXT x48391
f. TXT x48392
f. TXT x48393
f. TXT x48394
f. TXT x48395
f. TXT x48396
f. TXT x48397
f. TXT x48398
f. TXT x48399
f. TXT x48400
f. TXT x48401
f. TXT x48402
f. TXT x48403
f. TXT x48404
f. TXT x48405
f. TXT x48406
f. TXT x48407
f. TXT x48408
f. TXT x48409
f. TXT x48410
f. TXT x48411
f. TXT x48412
f. TXT x48413
f. TXT x48414
f. TXT x48415
f. TXT x48416
f. TXT x48417
f. TXT x48418
f. TXT x48419
f. TXT x48420
f. TXT x48421
f. TXT x48422
f. TXT x48423
f. TXT x48424
f. TXT x48425
f. TXT x48426
f. TXT x48427
f. TXT x48428
f. TXT x48429
f. TXT x48430
f. TXT x48431
f. TXT x48432
f. TXT x48433
f. TXT x48434
f. TXT x48435
f. TXT x48436
f. TXT x48437
f. TXT x48438
f. TXT x48439
f. TXT x48440
f. TXT x48441
f. TXT x48442
f. TXT x48443
f. TXT x48444
f. TXT x48445
f. TXT x48446
f. TXT x48447
$TTL 228447915
f. TXT x48449
f. TXT x48450
f. TXT x48451
f. TXT x48452
f. TXT x48453
f. TXT x48454
f. TXT x48455
f. TXT x48456
f. TXT x48457
f. TXT x48458
f. TXT x48459
f. TXT x48460
f. TXT x48461
f. TXT x48462
f. TXT x48463
f. TXT x48464
f. TXT x48465
f. TXT x48466
f. TXT x48467
f. TXT x48468
f. TXT x48469
f. TXT x48470
f. TXT x48471
f. TXT x48472
f. TXT x48473
f. TXT x48474
f. TXT x48475
f. TXT x48476
f. TXT x48477
f. TXT x48478
f. TXT x48479
f. TXT x48480
f. TXT x48481
f. TXT x48482
f. TXT x48483
f. TXT x48484
f. TXT x48485
f. TXT x48486
f. TXT x48487
f. TXT x48488
f. TXT x48489
f. TXT x48490
f. TXT x48491
f. TXT x48492
f. TXT x48493
f. TXT x48494
f. TXT x48495
f. TXT x48496
f. TXT x48497
f. TXT x48498
f. TXT x48499
f. TXT x48500
f. TXT x48501
f. TXT x48502
f. TXT x48503
f. TXT x48504
f. TXT x48505
f. TXT x48506
f. TXT x48507
f. TXT x48508
f. TXT x48509
f. TXT x48510
f. TXT x48511
z-x A 0 aa
f. TXT x48513
f. TXT x48514
f. TXT x48515
f. TXT x48516
f. TXT x48517
f. TXT x48518
f. TXT x48519
f. TXT x48520
f. TXT x48521
f. TXT x48522
f. TXT x48523
f. TXT x48524
f. TXT x48525
f. TXT x48526
f. TXT x48527
f. TXT x48528
f. TXT x48529
f. TXT x48530
f. TXT x48531
f. TXT x48532
f. TXT x48533
f. TXT x48534
f. TXT x48535
f. TXT x48536
f. TXT x48537
f. TXT x48538
f. TXT x48539
f. TXT x48540
f. TXT x48541
f. TXT x48542
f. TXT x48543
f. TXT x48544
f. TXT x48545
f. TXT x48546
f. TXT x48547
f. TXT x48548
f. TXT x48549
f. TXT x48550
f. TXT x48551
f. TXT x48552
f. TXT x48553
f. TXT x48554
f. TXT x48555
f. TXT x48556
f. TXT x48557
f. TXT x48558
f. TXT x48559
f. TXT x48560
f. TXT x48561
f. TXT x48562
f. TXT x48563
f. TXT x48564
f. TXT x48565
f. TXT x48566
f. TXT x48567
f. TXT x48568
f. TXT x48569
f. TXT x48570
f. TXT x48571
f. TXT x48572
f. TXT x48573
f. TXT x48574
f. TXT x48575
00*.cycy. NS x xcby
f. TXT x48577
f. TXT x48578
f. TXT x48579
f. TXT x48580
f. TXT x48581
f. TXT x48582
f. TXT x48583
f. TXT x48584
f. TXT x48585
f. TXT x48586
f. TXT x48587
f. TXT x48588
f. TXT x48589
f. TXT x48590
f. TXT x48591
f. TXT x48592
f. TXT x48593
f. TXT x48594
f. TXT x48595
f. TXT x48596
f. TXT x48597
f. TXT x48598
f. TXT x48599
f. TXT x48600
f. TXT x48601
f. TXT x48602
f. TXT x48603
f. TXT x48604
f. TXT x48605
f. TXT x48606
f. TXT x48607
f. TXT x48608
f. TXT x48609
f. TXT x48610
f. TXT x48611
f. TXT x48612
f. TXT x48613
f. TXT x48614
f. TXT x48615
f. TXT x48616
f. TXT x48617
f. TXT x48618
f. TXT x48619
f. TXT x48620
f. TXT x48621
f. TXT x48622
f. TXT x48623
f. TXT x48624
f. TXT x48625
f. TXT x48626
f. TXT x48627
f. TXT x48628
f. TXT x48629
f. TXT x48630
f. TXT x48631
f. TXT x48632
f. TXT x48633
f. TXT x48634
f. TXT x48635
f. TXT x48636
f. TXT x48637
f. TXT x48638
f. TXT x48639
y NS b-z
f. TXT x48641
f. TXT x48642
f. TXT x48643
f. TXT x48644
f. TXT x48645
f. TXT x48646
f. TXT x48647
f. TXT x48648
f. TXT x48649
f. TXT x48650
f. TXT x48651
f. TXT x48652
f. TXT x48653
f. TXT x48654
f. TXT x48655
f. TXT x48656
f. TXT x48657
f. TXT x48658
f. TXT x48659
f. TXT x48660
f. TXT x48661
f. TXT x48662
f. TXT x48663
f. TXT x48664
f. TXT x48665
f. TXT x48666
f. TXT x48667
f. TXT x48668
f. TXT x48669
f. TXT x48670
f. TXT x48671
f. TXT x48672
f. TXT x48673
f. TXT x48674
f. TXT x48675
f. TXT x48676
f. TXT x48677
f. TXT x48678
f. TXT x48679
f. TXT x48680
f. TXT x48681
f. TXT x48682
f. TXT x48683
f. TXT x48684
f. TXT x48685
f. TXT x48686
f. TXT x48687
f. TXT x48688
f. TXT x48689
f. TXT x48690
f. TXT x48691
f. TXT x48692
f. TXT x48693
f. TXT x48694
f. TXT x48695
f. TXT x48696
f. TXT x48697
f. TXT x48698
f. TXT x48699
f. TXT x48700
f. TXT x48701
f. TXT x48702
f. TXT x48703
 TXT cx y0
f. TXT x48705
f. TXT x48706
f. TXT x48707
f. TXT x48708
f. TXT x48709
f. TXT x48710
f. TXT x48711
f. TXT x48712
f. TXT x48713
f. TXT x48714
f. TXT x48715
f. TXT x48716
f. TXT x48717
f. TXT x48718
f. TXT x48719
f. TXT x48720
f. TXT x48721
f. TXT x48722
f. TXT x48723
f. TXT x48724
f. TXT x48725
f. TXT x48726
f. TXT x48727
f. TXT x48728
f. TXT x48729
f. TXT x48730
f. TXT x48731
f. TXT x48732
f. TXT x48733
f. TXT x48734
f. TXT x48735
f. TXT x48736
f. TXT x48737
f. TXT x48738
f. TXT x48739
f. TXT x48740
f. TXT x48741
f. TXT x48742
f. TXT x48743
f. TXT x48744
f. TXT x48745
f. TXT x48746
f. TXT x48747
f. TXT x48748
f. TXT x48749
f. TXT x48750
f. TXT x48751
f. TXT x48752
f. TXT x48753
f. TXT x48754
f. TXT x48755
f. TXT x48756
f. TXT x48757
f. TXT x48758
f. TXT x48759
f. TXT x48760
f. TXT x48761
f. TXT x48762
f. TXT x48763
f. TXT x48764
f. TXT x48765
f. TXT x48766
f. TXT x48767
$TTL 78
f. TXT x48769
f. TXT x48770
f. TXT x48771
f. TXT x48772
f. TXT x48773
f. TXT x48774
f. TXT x48775
f. TXT x48776
f. TXT x48777
f. TXT x48778
f. TXT x48779
f. TXT x48780
f. TXT x48781
f. TXT x48782
f. TXT x48783
f. TXT x48784
f. TXT x48785
f. TXT x48786
f. TXT x48787
f. TXT x48788
f. TXT x48789
f. TXT x48790
f. TXT x48791
f. TXT x48792
f. TXT x48793
f. TXT x48794
f. TXT x48795
f. TXT x48796
f. TXT x48797
f. TXT x48798
f. TXT x48799
f. TXT x48800
f. TXT x48801
f. TXT x48802
f. TXT x48803
f. TXT x48804
f. TXT x48805
f. TXT x48806
f. TXT x48807
f. TXT x48808
f. TXT x48809
f. TXT x48810
f. TXT x48811
f. TXT x48812
f. TXT x48813
f. TXT x48814
f. TXT x48815
f. TXT x48816
f. TXT x48817
f. TXT x48818
f. TXT x48819
f. TXT x48820
f. TXT x48821
f. TXT x48822
f. TXT x48823
f. TXT x48824
f. TXT x48825
f. TXT x48826
f. TXT x48827
f. TXT x48828
f. TXT x48829
f. TXT x48830
f. TXT x48831
aab NS -** b0yy
f. TXT x48833
f. TXT x48834
f. TXT x48835
f. TXT x48836
f. TXT x48837
f. TXT x48838
f. TXT x48839
f. TXT x48840
f. TXT x48841
f. TXT x48842
f. TXT x48843
f. TXT x48844
f. TXT x48845
f. TXT x48846
f. TXT x48847
f. TXT x48848
f. TXT x48849
f. TXT x48850
f. TXT x48851
f. TXT x48852
f. TXT x48853
f. TXT x48854
f. TXT x48855
f. TXT x48856
f. TXT x48857
f. TXT x48858
f. TXT x48859
f. TXT x48860
f. TXT x48861
f. TXT x48862
f. TXT x48863
f. TXT x48864
f. TXT x48865
f. TXT x48866
f. TXT x48867
f. TXT x48868
f. TXT x48869
f. TXT x48870
f. TXT x48871
f. TXT x48872
f. TXT x48873
f. TXT x48874
f. TXT x48875
f. TXT x48876
f. TXT x48877
f. TXT x48878
f. TXT x48879
f. TXT x48880
f. TXT x48881
f. TXT x48882
f. TXT x48883
f. TXT x48884
f. TXT x48885
f. TXT x48886
f. TXT x48887
f. TXT x48888
f. TXT x48889
f. TXT x48890
f. TXT x48891
f. TXT x48892
f. TXT x48893
f. TXT x48894
f. TXT x48895
-bc. A -xx
f. TXT x48897
f. TXT x48898
f. TXT x48899
f. TXT x48900
f. TXT x48901
f. TXT x48902
f. TXT x48903
f. TXT x48904
f. TXT x48905
f. TXT x48906
f. TXT x48907
f. TXT x48908
f. TXT x48909
f. TXT x48910
f. TXT x48911
f. TXT x48912
f. TXT x48913
f. TXT x48914
f. TXT x48915
f. TXT x48916
f. TXT x48917
f. TXT x48918
f. TXT x48919
f. TXT x48920
f. TXT x48921
f. TXT x48922
f. TXT x48923
f. TXT x48924
f. TXT x48925
f. TXT x48926
f. TXT x48927
f. TXT x48928
f. TXT x48929
f. TXT x48930
f. TXT x48931
f. TXT x48932
f. TXT x48933
f. TXT x48934
f. TXT x48935
f. TXT x48936
f. TXT x48937
f. TXT x48938
f. TXT x48939
f. TXT x48940
f. TXT x48941
f. TXT x48942
f. TXT x48943
f. TXT x48944
f. TXT x48945
f. TXT x48946
f. TXT x48947
f. TXT x48948
f. TXT x48949
f. TXT x48950
f. TXT x48951
f. TXT x48952
f. TXT x48953
f. TXT x48954
f. TXT x48955
f. TXT x48956
f. TXT x48957
f. TXT x48958
f. TXT x48959
$TTL 26796825
f. TXT x48961
f. TXT x48962
f. TXT x48963
f. TXT x48964
f. TXT x48965
f. TXT x48966
f. TXT x48967
f. TXT x48968
f. TXT x48969
f. TXT x48970
f. TXT x48971
f. TXT x48972
f. TXT x48973
f. TXT x48974
f. TXT x48975
f. TXT x48976
f. TXT x48977
f. TXT x48978
f. TXT x48979
f. TXT x48980
f. TXT x48981
f. TXT x48982
f. TXT x48983
f. TXT x48984
f. TXT x48985
f. TXT x48986
f. TXT x48987
f. TXT x48988
f. TXT x48989
f. TXT x48990
f. TXT x48991
f. TXT x48992
f. TXT x48993
f. TXT x48994
f. TXT x48995
f. TXT x48996
f. TXT x48997
f. TXT x48998
f. TXT x48999
f. TXT x49000
f. TXT x49001
f. TXT x49002
f. TXT x49003
f. TXT x49004
f. TXT x49005
f. TXT x49006
f. TXT x49007
f. TXT x49008
f. TXT x49009
f. TXT x49010
f. TXT x49011
f. TXT x49012
f. TXT x49013
f. TXT x49014
f. TXT x49015
f. TXT x49016
f. TXT x49017
f. TXT x49018
f. TXT x49019
f. TXT x49020
f. TXT x49021
f. TXT x49022
f. TXT x49023
@ A a*b
f. TXT x49025
f. TXT x49026
f. TXT x49027
f. TXT x49028
f. TXT x49029
f. TXT x49030
f. TXT x49031
f. TXT x49032
f. TXT x49033
f. TXT x49034
f. TXT x49035
f. TXT x49036
f. TXT x49037
f. TXT x49038
f. TXT x49039
f. TXT x49040
f. TXT x49041
f. TXT x49042
f. TXT x49043
f. TXT x49044
f. TXT x49045
f. TXT x49046
f. TXT x49047
f. TXT x49048
f. TXT x49049
f. TXT x49050
f. TXT x49051
f. TXT x49052
f. TXT x49053
f. TXT x49054
f. TXT x49055
f. TXT x49056
f. TXT x49057
f. TXT x49058
f. TXT x49059
f. TXT x49060
f. TXT x49061
f. TXT x49062
f. TXT x49063
f. TXT x49064
f. TXT x49065
f. TXT x49066
f. TXT x49067
f. TXT x49068
f. TXT x49069
f. TXT x49070
f. TXT x49071
f. TXT x49072
f. TXT x49073
f. TXT x49074
f. TXT x49075
f. TXT x49076
f. TXT x49077
f. TXT x49078
f. TXT x49079
f. TXT x49080
f. TXT x49081
f. TXT x49082
f. TXT x49083
f. TXT x49084
f. TXT x49085
f. TXT x49086
f. TXT x49087
cxc.xxxa. TXT c yba
f. TXT x49089
f. TXT x49090
f. TXT x49091
f. TXT x49092
f. TXT x49093
f. TXT x49094
f. TXT x49095
f. TXT x49096
f. TXT x49097
f. TXT x49098
f. TXT x49099
f. TXT x49100
f. TXT x49101
f. TXT x49102
f. TXT x49103
f. TXT x49104
f. TXT x49105
f. TXT x49106
f. TXT x49107
f. TXT x49108
f. TXT x49109
f. TXT x49110
f. TXT x49111
f. TXT x49112
f. TXT x49113
f. TXT x49114
f. TXT x49115
f. TXT x49116
f. TXT x49117
f. TXT x49118
f. TXT x49119
f. TXT x49120
f. TXT x49121
f. TXT x49122
f. TXT x49123
f. TXT x49124
f. TXT x49125
f. TXT x49126
f. TXT x49127
f. TXT x49128
f. TXT x49129
f. TXT x49130
f. TXT x49131
f. TXT x49132
f. TXT x49133
f. TXT x49134
f. TXT x49135
f. TXT x49136
f. TXT x49137
f. TXT x49138
f. TXT x49139
f. TXT x49140
f. TXT x49141
f. TXT x49142
f. TXT x49143
f. TXT x49144
f. TXT x49145
f. TXT x49146
f. TXT x49147
f. TXT x49148
f. TXT x49149
f. TXT x49150
f. TXT x49151
a*c A -
f. TXT x49153
f. TXT x49154
f. TXT x49155
f. TXT x49156
f. TXT x49157
f. TXT x49158
f. TXT x49159
f. TXT x49160
f. TXT x49161
f. TXT x49162
f. TXT x49163
f. TXT x49164
f. TXT x49165
f. TXT x49166
f. TXT x49167
f. TXT x49168
f. TXT x49169
f. TXT x49170
f. TXT x49171
f. TXT x49172
f. TXT x49173
f. TXT x49174
f. TXT x49175
f. TXT x49176
f. TXT x49177
f. TXT x49178
f. TXT x49179
f. TXT x49180
f. TXT x49181
f. TXT x49182
f. TXT x49183
f. TXT x49184
f. TXT x49185
f. TXT x49186
f. TXT x49187
f. TXT x49188
f. TXT x49189
f. TXT x49190
f. TXT x49191
f. TXT x49192
f. TXT x49193
f. TXT x49194
f. TXT x49195
f. TXT x49196
f. TXT x49197
f. TXT x49198
f. TXT x49199
f. TXT x49200
f. TXT x49201
f. TXT x49202
f. TXT x49203
f. TXT x49204
f. TXT x49205
f. TXT x49206
f. TXT x49207
f. TXT x49208
f. TXT x49209
f. TXT x49210
f. TXT x49211
f. TXT x49212
f. TXT x49213
f. TXT x49214
f. TXT x49215
 NS x
f. TXT x49217
f. TXT x49218
f. TXT x49219
f. TXT x49220
f. TXT x49221
f. TXT x49222
f. TXT x49223
f. TXT x49224
f. TXT x49225
f. TXT x49226
f. TXT x49227
f. TXT x49228
f. TXT x49229
f. TXT x49230
f. TXT x49231
f. TXT x49232
f. TXT x49233
f. TXT x49234
f. TXT x49235
f. TXT x49236
f. TXT x49237
f. TXT x49238
f. TXT x49239
f. TXT x49240
f. TXT x49241
f. TXT x49242
f. TXT x49243
f. TXT x49244
f. TXT x49245
f. TXT x49246
f. TXT x49247
f. TXT x49248
f. TXT x49249
f. TXT x49250
f. TXT x49251
f. TXT x49252
f. TXT x49253
f. TXT x49254
f. TXT x49255
f. TXT x49256
f. TXT x49257
f. TXT x49258
f. TXT x49259
f. TXT x49260
f. TXT x49261
f. TXT x49262
f. TXT x49263
f. TXT x49264
f. TXT x49265
f. TXT x49266
f. TXT x49267
f. TXT x49268
f. TXT x49269
f. TXT x49270
f. TXT x49271
f. TXT x49272
f. TXT x49273
f. TXT x49274
f. TXT x49275
f. TXT x49276
f. TXT x49277
f. TXT x49278
f. TXT x49279
@ A yxc
f. TXT x49281
f. TXT x49282
f. TXT x49283
f. TXT x49284
f. TXT x49285
f. TXT x49286
f. TXT x49287
f. TXT x49288
f. TXT x49289
f. TXT x49290
f. TXT x49291
f. TXT x49292
f. TXT x49293
f. TXT x49294
f. TXT x49295
f. TXT x49296
f. TXT x49297
f. TXT x49298
f. TXT x49299
f. TXT x49300
f. TXT x49301
f. TXT x49302
f. TXT x49303
f. TXT x49304
f. TXT x49305
f. TXT x49306
f. TXT x49307
f. TXT x49308
f. TXT x49309
f. TXT x49310
f. TXT x49311
f. TXT x49312
f. TXT x49313
f. TXT x49314
f. TXT x49315
f. TXT x49316
f. TXT x49317
f. TXT x49318
f. TXT x49319
f. TXT x49320
f. TXT x49321
f. TXT x49322
f. TXT x49323
f. TXT x49324
f. TXT x49325
f. TXT x49326
f. TXT x49327
f. TXT x49328
f. TXT x49329
f. TXT x49330
f. TXT x49331
f. TXT x49332
f. TXT x49333
f. TXT x49334
f. TXT x49335
f. TXT x49336
f. TXT x49337
f. TXT x49338
f. TXT x49339
f. TXT x49340
f. TXT x49341
f. TXT x49342
f. TXT x49343
- TXT zxcb b z
f. TXT x49345
f. TXT x49346
f. TXT x49347
f. TXT x49348
f. TXT x49349
f. TXT x49350
f. TXT x49351
f. TXT x49352
f. TXT x49353
f. TXT x49354
f. TXT x49355
f. TXT x49356
f. TXT x49357
f. TXT x49358
f. TXT x49359
f. TXT x49360
f. TXT x49361
f. TXT x49362
f. TXT x49363
f. TXT x49364
f. TXT x49365
f. TXT x49366
f. TXT x49367
f. TXT x49368
f. TXT x49369
f. TXT x49370
f. TXT x49371
f. TXT x49372
f. TXT x49373
f. TXT x49374
f. TXT x49375
f. TXT x49376
f. TXT x49377
f. TXT x49378
f. TXT x49379
f. TXT x49380
f. TXT x49381
f. TXT x49382
f. TXT x49383
f. TXT x49384
f. TXT x49385
f. TXT x49386
f. TXT x49387
f. TXT x49388
f. TXT x49389
f. TXT x49390
f. TXT x49391
f. TXT x49392
f. TXT x49393
f. TXT x49394
f. TXT x49395
f. TXT x49396
f. TXT x49397
f. TXT x49398
f. TXT x49399
f. TXT x49400
f. TXT x49401
f. TXT x49402
f. TXT x49403
f. TXT x49404
f. TXT x49405
f. TXT x49406
f. TXT x49407
$ORIGIN ba.0yc.
f. TXT x49409
f. TXT x49410
f. TXT x49411
f. TXT x49412
f. TXT x49413
f. TXT x49414
f. TXT x49415
f. TXT x49416
f. TXT x49417
f. TXT x49418
f. TXT x49419
f. TXT x49420
f. TXT x49421
f. TXT x49422
f. TXT x49423
f. TXT x49424
f. TXT x49425
f. TXT x49426
f. TXT x49427
f. TXT x49428
f. TXT x49429
f. TXT x49430
f. TXT x49431
f. TXT x49432
f. TXT x49433
f. TXT x49434
f. TXT x49435
f. TXT x49436
f. TXT x49437
f. TXT x49438
f. TXT x49439
f. TXT x49440
f. TXT x49441
f. TXT x49442
f. TXT x49443
f. TXT x49444
f. TXT x49445
f. TXT x49446
f. TXT x49447
f. TXT x49448
f. TXT x49449
f. TXT x49450
f. TXT x49451
f. TXT x49452
f. TXT x49453
f. TXT x49454
f. TXT x49455
f. TXT x49456
f. TXT x49457
f. TXT x49458
f. TXT x49459
f. TXT x49460
f. TXT x49461
f. TXT x49462
f. TXT x49463
f. TXT x49464
f. TXT x49465
f. TXT x49466
f. TXT x49467
f. TXT x49468
f. TXT x49469
f. TXT x49470
f. TXT x49471
$TTL 924958296
f. TXT x49473
f. TXT x49474
f. TXT x49475
f. TXT x49476
f. TXT x49477
f. TXT x49478
f. TXT x49479
f. TXT x49480
f. TXT x49481
f. TXT x49482
f. TXT x49483
f. TXT x49484
f. TXT x49485
f. TXT x49486
f. TXT x49487
f. TXT x49488
f. TXT x49489
f. TXT x49490
f. TXT x49491
f. TXT x49492
f. TXT x49493
f. TXT x49494
f. TXT x49495
f. TXT x49496
f. TXT x49497
f. TXT x49498
f. TXT x49499
f. TXT x49500
f. TXT x49501
f. TXT x49502
f. TXT x49503
f. TXT x49504
f. TXT x49505
f. TXT x49506
f. TXT x49507
f. TXT x49508
f. TXT x49509
f. TXT x49510
f. TXT x49511
f. TXT x49512
f. TXT x49513
f. TXT x49514
f. TXT x49515
f. TXT x49516
f. TXT x49517
f. TXT x49518
f. TXT x49519
f. TXT x49520
f. TXT x49521
f. TXT x49522
f. TXT x49523
f. TXT x49524
f. TXT x49525
f. TXT x49526
f. TXT x49527
f. TXT x49528
f. TXT x49529
f. TXT x49530
f. TXT x49531
f. TXT x49532
f. TXT x49533
f. TXT x49534
f. TXT x49535
0yy A yz c0a*
f. TXT x49537
f. TXT x49538
f. TXT x49539
f. TXT x49540
f. TXT x49541
f. TXT x49542
f. TXT x49543
f. TXT x49544
f. TXT x49545
f. TXT x49546
f. TXT x49547
f. TXT x49548
f. TXT x49549
f. TXT x49550
f. TXT x49551
f. TXT x49552
f. TXT x49553
f. TXT x49554
f. TXT x49555
f. TXT x49556
f. TXT x49557
f. TXT x49558
f. TXT x49559
f. TXT x49560
f. TXT x49561
f. TXT x49562
f. TXT x49563
f. TXT x49564
f. TXT x49565
f. TXT x49566
f. TXT x49567
f. TXT x49568
f. TXT x49569
f. TXT x49570
f. TXT x49571
f. TXT x49572
f. TXT x49573
f. TXT x49574
f. TXT x49575
f. TXT x49576
f. TXT x49577
f. TXT x49578
f. TXT x49579
f. TXT x49580
f. TXT x49581
f. TXT x49582
f. TXT x49583
f. TXT x49584
f. TXT x49585
f. TXT x49586
f. TXT x49587
f. TXT x49588
f. TXT x49589
f. TXT x49590
f. TXT x49591
f. TXT x49592
f. TXT x49593
f. TXT x49594
f. TXT x49595
f. TXT x49596
f. TXT x49597
f. TXT x49598
f. TXT x49599
@ NS -0z za-a bzy
f. TXT x49601
f. TXT x49602
f. TXT x49603
f. TXT x49604
f. TXT x49605
f. TXT x49606
f. TXT x49607
f. TXT x49608
f. TXT x49609
f. TXT x49610
f. TXT x49611
f. TXT x49612
f. TXT x49613
f. TXT x49614
f. TXT x49615
f. TXT x49616
f. TXT x49617
f. TXT x49618
f. TXT x49619
f. TXT x49620
f. TXT x49621
f. TXT x49622
f. TXT x49623
f. TXT x49624
f. TXT x49625
f. TXT x49626
f. TXT x49627
f. TXT x49628
f. TXT x49629
f. TXT x49630
f. TXT x49631
f. TXT x49632
f. TXT x49633
f. TXT x49634
f. TXT x49635
f. TXT x49636
f. TXT x49637
f. TXT x49638
f. TXT x49639
f. TXT x49640
f. TXT x49641
f. TXT x49642
f. TXT x49643
f. TXT x49644
f. TXT x49645
f. TXT x49646
f. TXT x49647
f. TXT x49648
f. TXT x49649
f. TXT x49650
f. TXT x49651
f. TXT x49652
f. TXT x49653
f. TXT x49654
f. TXT x49655
f. TXT x49656
f. TXT x49657
f. TXT x49658
f. TXT x49659
f. TXT x49660
f. TXT x49661
f. TXT x49662
f. TXT x49663
; 0
f. TXT x49665
f. TXT x49666
f. TXT x49667
f. TXT x49668
f. TXT x49669
f. TXT x49670
f. TXT x49671
f. TXT x49672
f. TXT x49673
f. TXT x49674
f. TXT x49675
f. TXT x49676
f. TXT x49677
f. TXT x49678
f. TXT x49679
f. TXT x49680
f. TXT x49681
f. TXT x49682
f. TXT x49683
f. TXT x49684
f. TXT x49685
f. TXT x49686
f. TXT x49687
f. TXT x49688
f. TXT x49689
f. TXT x49690
f. TXT x49691
f. TXT x49692
f. TXT x49693
f. TXT x49694
f. TXT x49695
f. TXT x49696
f. TXT x49697
f. TXT x49698
f. TXT x49699
f. TXT x49700
f. TXT x49701
f. TXT x49702
f. TXT x49703
f. TXT x49704
f. TXT x49705
f. TXT x49706
f. TXT x49707
f. TXT x49708
f. TXT x49709
f. TXT x49710
f. TXT x49711
f. TXT x49712
f. TXT x49713
f. TXT x49714
f. TXT x49715
f. TXT x49716
f. TXT x49717
f. TXT x49718
f. TXT x49719
f. TXT x49720
f. TXT x49721
f. TXT x49722
f. TXT x49723
f. TXT x49724
f. TXT x49725
f. TXT x49726
f. TXT x49727
 TXT ab0
f. TXT x49729
f. TXT x49730
f. TXT x49731
f. TXT x49732
f. TXT x49733
f. TXT x49734
f. TXT x49735
f. TXT x49736
f. TXT x49737
f. TXT x49738
f. TXT x49739
f. TXT x49740
f. TXT x49741
f. TXT x49742
f. TXT x49743
f. TXT x49744
f. TXT x49745
f. TXT x49746
f. TXT x49747
f. TXT x49748
f. TXT x49749
f. TXT x49750
f. TXT x49751
f. TXT x49752
f. TXT x49753
f. TXT x49754
f. TXT x49755
f. TXT x49756
f. TXT x49757
f. TXT x49758
f. TXT x49759
f. TXT x49760
f. TXT x49761
f. TXT x49762
f. TXT x49763
f. TXT x49764
f. TXT x49765
f. TXT x49766
f. TXT x49767
f. TXT x49768
f. TXT x49769
f. TXT x49770
f. TXT x49771
f. TXT x49772
f. TXT x49773
f. TXT x49774
f. TXT x49775
f. TXT x49776
f. TXT x49777
f. TXT x49778
f. TXT x49779
f. TXT x49780
f. TXT x49781
f. TXT x49782
f. TXT x49783
f. TXT x49784
f. TXT x49785
f. TXT x49786
f. TXT x49787
f. TXT x49788
f. TXT x49789
f. TXT x49790
f. TXT x49791
*cb. NS *-
f. TXT x49793
f. TXT x49794
f. TXT x49795
f. TXT x49796
f. TXT x49797
f. TXT x49798
f. TXT x49799
f. TXT x49800
f. TXT x49801
f. TXT x49802
f. TXT x49803
f. TXT x49804
f. TXT x49805
f. TXT x49806
f. TXT x49807
f. TXT x49808
f. TXT x49809
f. TXT x49810
f. TXT x49811
f. TXT x49812
f. TXT x49813
f. TXT x49814
f. TXT x49815
f. TXT x49816
f. TXT x49817
f. TXT x49818
f. TXT x49819
f. TXT x49820
f. TXT x49821
f. TXT x49822
f. TXT x49823
f. TXT x49824
f. TXT x49825
f. TXT x49826
f. TXT x49827
f. TXT x49828
f. TXT x49829
f. TXT x49830
f. TXT x49831
f. TXT x49832
f. TXT x49833
f. TXT x49834
f. TXT x49835
f. TXT x49836
f. TXT x49837
f. TXT x49838
f. TXT x49839
f. TXT x49840
f. TXT x49841
f. TXT x49842
f. TXT x49843
f. TXT x49844
f. TXT x49845
f. TXT x49846
f. TXT x49847
f. TXT x49848
f. TXT x49849
f. TXT x49850
f. TXT x49851
f. TXT x49852
f. TXT x49853
f. TXT x49854
f. TXT x49855
bc.*x. NS xa*y abbb az
f. TXT x49857
f. TXT x49858
f. TXT x49859
f. TXT x49860
f. TXT x49861
f. TXT x49862
f. TXT x49863
f. TXT x49864
f. TXT x49865
f. TXT x49866
f. TXT x49867
f. TXT x49868
f. TXT x49869
f. TXT x49870
f. TXT x49871
f. TXT x49872
f. TXT x49873
f. TXT x49874
f. TXT x49875
f. TXT x49876
f. TXT x49877
f. TXT x49878
f. TXT x49879
f. TXT x49880
f. TXT x49881
f. TXT x49882
f. TXT x49883
f. TXT x49884
f. TXT x49885
f. TXT x49886
f. TXT x49887
f. TXT x49888
f. TXT x49889
f. TXT x49890
f. TXT x49891
f. TXT x49892
f. TXT x49893
f. TXT x49894
f. TXT x49895
f. TXT x49896
f. TXT x49897
f. TXT x49898
f. TXT x49899
f. TXT x49900
f. TXT x49901
f. TXT x49902
f. TXT x49903
f. TXT x49904
f. TXT x49905
f. TXT x49906
f. TXT x49907
f. TXT x49908
f. TXT x49909
f. TXT x49910
f. TXT x49911
f. TXT x49912
f. TXT x49913
f. TXT x49914
f. TXT x49915
f. TXT x49916
f. TXT x49917
f. TXT x49918
f. TXT x49919
@ NS xcb
f. TXT x49921
f. TXT x49922
f. TXT x49923
f. TXT x49924
f. TXT x49925
f. TXT x49926
f. TXT x49927
f. TXT x49928
f. TXT x49929
f. TXT x49930
f. TXT x49931
f. TXT x49932
f. TXT x49933
f. TXT x49934
f. TXT x49935
f. TXT x49936
f. TXT x49937
f. TXT x49938
f. TXT x49939
f. TXT x49940
f. TXT x49941
f. TXT x49942
f. TXT x49943
f. TXT x49944
f. TXT x49945
f. TXT x49946
f. TXT x49947
f. TXT x49948
f. TXT x49949
f. TXT x49950
f. TXT x49951
f. TXT x49952
f. TXT x49953
f. TXT x49954
f. TXT x49955
f. TXT x49956
f. TXT x49957
f. TXT x49958
f. TXT x49959
f. TXT x49960
f. TXT x49961
f. TXT x49962
f. TXT x49963
f. TXT x49964
f. TXT x49965
f. TXT x49966
f. TXT x49967
f. TXT x49968
f. TXT x49969
f. TXT x49970
f. TXT x49971
f. TXT x49972
f. TXT x49973
f. TXT x49974
f. TXT x49975
f. TXT x49976
f. TXT x49977
f. TXT x49978
f. TXT x49979
f. TXT x49980
f. TXT x49981
f. TXT x49982
f. TXT x49983
 NS xca
f. TXT x49985
f. TXT x49986
f. TXT x49987
f. TXT x49988
f. TXT x49989
f. TXT x49990
f. TXT x49991
f. TXT x49992
f. TXT x49993
f. TXT x49994
f. TXT x49995
f. TXT x49996
f. TXT x49997
f. TXT x49998
f. TXT x49999
f. TXT x50000
f. TXT x50001
f. TXT x50002
f. TXT x50003
f. TXT x50004
f. TXT x50005
f. TXT x50006
f. TXT x50007
f. TXT x50008
f. TXT x50009
f. TXT x50010
f. TXT x50011
f. TXT x50012
f. TXT x50013
f. TXT x50014
f. TXT x50015
f. TXT x50016
f. TXT x50017
f. TXT x50018
f. TXT x50019
f. TXT x50020
f. TXT x50021
f. TXT x50022
f. TXT x50023
f. TXT x50024
f. TXT x50025
f. TXT x50026
f. TXT x50027
f. TXT x50028
f. TXT x50029
f. TXT x50030
f. TXT x50031
f. TXT x50032
f. TXT x50033
f. TXT x50034
f. TXT x50035
f. TXT x50036
f. TXT x50037
f. TXT x50038
f. TXT x50039
f. TXT x50040
f. TXT x50041
f. TXT x50042
f. TXT x50043
f. TXT x50044
f. TXT x50045
f. TXT x50046
f. TXT x50047
zzc- TXT ayy a0zz c
f. TXT x50049
f. TXT x50050
f. TXT x50051
f. TXT x50052
f. TXT x50053
f. TXT x50054
f. TXT x50055
f. TXT x50056
f. TXT x50057
f. TXT x50058
f. TXT x50059
f. TXT x50060
f. TXT x50061
f. TXT x50062
f. TXT x50063
f. TXT x50064
f. TXT x50065
f. TXT x50066
f. TXT x50067
f. TXT x50068
f. TXT x50069
f. TXT x50070
f. TXT x50071
f. TXT x50072
f. TXT x50073
f. TXT x50074
f. TXT x50075
f. TXT x50076
f. TXT x50077
f. TXT x50078
f. TXT x50079
f. TXT x50080
f. TXT x50081
f. TXT x50082
f. TXT x50083
f. TXT x50084
f. TXT x50085
f. TXT x50086
f. TXT x50087
f. TXT x50088
f. TXT x50089
f. TXT x50090
f. TXT x50091
f. TXT x50092
f. TXT x50093
f. TXT x50094
f. TXT x50095
f. TXT x50096
f. TXT x50097
f. TXT x50098
f. TXT x50099
f. TXT x50100
f. TXT x50101
f. TXT x50102
f. TXT x50103
f. TXT x50104
f. TXT x50105
f. TXT x50106
f. TXT x50107
f. TXT x50108
f. TXT x50109
f. TXT x50110
f. TXT x50111
@ NS -a0
f. TXT x50113
f. TXT x50114
f. TXT x50115
f. TXT x50116
f. TXT x50117
f. TXT x50118
f. TXT x50119
f. TXT x50120
f. TXT x50121
f. TXT x50122
f. TXT x50123
f. TXT x50124
f. TXT x50125
f. TXT x50126
f. TXT x50127
f. TXT x50128
f. TXT x50129
f. TXT x50130
f. TXT x50131
f. TXT x50132
f. TXT x50133
f. TXT x50134
f. TXT x50135
f. TXT x50136
f. TXT x50137
f. TXT x50138
f. TXT x50139
f. TXT x50140
f. TXT x50141
f. TXT x50142
f. TXT x50143
f. TXT x50144
f. TXT x50145
f. TXT x50146
f. TXT x50147
f. TXT x50148
f. TXT x50149
f. TXT x50150
f. TXT x50151
f. TXT x50152
f. TXT x50153
f. TXT x50154
f. TXT x50155
f. TXT x50156
f. TXT x50157
f. TXT x50158
f. TXT x50159
f. TXT x50160
f. TXT x50161
f. TXT x50162
f. TXT x50163
f. TXT x50164
f. TXT x50165
f. TXT x50166
f. TXT x50167
f. TXT x50168
f. TXT x50169
f. TXT x50170
f. TXT x50171
f. TXT x50172
f. TXT x50173
f. TXT x50174
f. TXT x50175

f. TXT x50177
f. TXT x50178
f. TXT x50179
f. TXT x50180
f. TXT x50181
f. TXT x50182
f. TXT x50183
f. TXT x50184
f. TXT x50185
f. TXT x50186
f. TXT x50187
f. TXT x50188
f. TXT x50189
f. TXT x50190
f. TXT x50191
f. TXT x50192
f. TXT x50193
f. TXT x50194
f. TXT x50195
f. TXT x50196
f. TXT x50197
f. TXT x50198
f. TXT x50199
f. TXT x50200
f. TXT x50201
f. TXT x50202
f. TXT x50203
f. TXT x50204
f. TXT x50205
f. TXT x50206
f. TXT x50207
f. TXT x50208
f. TXT x50209
f. TXT x50210
f. TXT x50211
f. TXT x50212
f. TXT x50213
f. TXT x50214
f. TXT x50215
f. TXT x50216
f. TXT x50217
f. TXT x50218
f. TXT x50219
f. TXT x50220
f. TXT x50221
f. TXT x50222
f. TXT x50223
f. TXT x50224
f. TXT x50225
f. TXT x50226
f. TXT x50227
f. TXT x50228
f. TXT x50229
f. TXT x50230
f. TXT x50231
f. TXT x50232
f. TXT x50233
f. TXT x50234
f. TXT x50235
f. TXT x50236
f. TXT x50237
f. TXT x50238
f. TXT x50239
 TXT xbz *b- c*
f. TXT x50241
f. TXT x50242
f. TXT x50243
f. TXT x50244
f. TXT x50245
f. TXT x50246
f. TXT x50247
f. TXT x50248
f. TXT x50249
f. TXT x50250
f. TXT x50251
f. TXT x50252
f. TXT x50253
f. TXT x50254
f. TXT x50255
f. TXT x50256
f. TXT x50257
f. TXT x50258
f. TXT x50259
f. TXT x50260
f. TXT x50261
f. TXT x50262
f. TXT x50263
f. TXT x50264
f. TXT x50265
f. TXT x50266
f. TXT x50267
f. TXT x50268
f. TXT x50269
f. TXT x50270
f. TXT x50271
f. TXT x50272
f. TXT x50273
f. TXT x50274
f. TXT x50275
f. TXT x50276
f. TXT x50277
f. TXT x50278
f. TXT x50279
f. TXT x50280
f. TXT x50281
f. TXT x50282
f. TXT x50283
f. TXT x50284
f. TXT x50285
f. TXT x50286
f. TXT x50287
f. TXT x50288
f. TXT x50289
f. TXT x50290
f. TXT x50291
f. TXT x50292
f. TXT x50293
f. TXT x50294
f. TXT x50295
f. TXT x50296
f. TXT x50297
f. TXT x50298
f. TXT x50299
f. TXT x50300
f. TXT x50301
f. TXT x50302
f. TXT x50303
zc NS -
f. TXT x50305
f. TXT x50306
f. TXT x50307
f. TXT x50308
f. TXT x50309
f. TXT x50310
f. TXT x50311
f. TXT x50312
f. TXT x50313
f. TXT x50314
f. TXT x50315
f. TXT x50316
f. TXT x50317
f. TXT x50318
f. TXT x50319
f. TXT x50320
f. TXT x50321
f. TXT x50322
f. TXT x50323
f. TXT x50324
f. TXT x50325
f. TXT x50326
f. TXT x50327
f. TXT x50328
f. TXT x50329
f. TXT x50330
f. TXT x50331
f. TXT x50332
f. TXT x50333
f. TXT x50334
f. TXT x50335
f. TXT x50336
f. TXT x50337
f. TXT x50338
f. TXT x50339
f. TXT x50340
f. TXT x50341
f. TXT x50342
f. TXT x50343
f. TXT x50344
f. TXT x50345
f. TXT x50346
f. TXT x50347
f. TXT x50348
f. TXT x50349
f. TXT x50350
f. TXT x50351
f. TXT x50352
f. TXT x50353
f. TXT x50354
f. TXT x50355
f. TXT x50356
f. TXT x50357
f. TXT x50358
f. TXT x50359
f. TXT x50360
f. TXT x50361
f. TXT x50362
f. TXT x50363
f. TXT x50364
f. TXT x50365
f. TXT x50366
f. TXT x50367
xa A 0a xz*y bc
f. TXT x50369
f. TXT x50370
f. TXT x50371
f. TXT x50372
f. TXT x50373
f. TXT x50374
f. TXT x50375
f. TXT x50376
f. TXT x50377
f. TXT x50378
f. TXT x50379
f. TXT x50380
f. TXT x50381
f. TXT x50382
f. TXT x50383
f. TXT x50384
f. TXT x50385
f. TXT x50386
f. TXT x50387
f. TXT x50388
f. TXT x50389
f. TXT x50390
f. TXT x50391
f. TXT x50392
f. TXT x50393
f. TXT x50394
f. TXT x50395
f. TXT x50396
f. TXT x50397
f. TXT x50398
f. TXT x50399
f. TXT x50400
f. TXT x50401
f. TXT x50402
f. TXT x50403
f. TXT x50404
f. TXT x50405
f. TXT x50406
f. TXT x50407
f. TXT x50408
f. TXT x50409
f. TXT x50410
f. TXT x50411
f. TXT x50412
f. TXT x50413
f. TXT x50414
f. TXT x50415
f. TXT x50416
f. TXT x50417
f. TXT x50418
f. TXT x50419
f. TXT x50420
f. TXT x50421
f. TXT x50422
f. TXT x50423
f. TXT x50424
f. TXT x50425
f. TXT x50426
f. TXT x50427
f. TXT x50428
f. TXT x50429
f. TXT x50430
f. TXT x50431
byy.ay. NS az-c 0b0 az
f. TXT x50433
f. TXT x50434
f. TXT x50435
f. TXT x50436
f. TXT x50437
f. TXT x50438
f. TXT x50439
f. TXT x50440
f. TXT x50441
f. TXT x50442
f. TXT x50443
f. TXT x50444
f. TXT x50445
f. TXT x50446
f. TXT x50447
f. TXT x50448
f. TXT x50449
f. TXT x50450
f. TXT x50451
f. TXT x50452
f. TXT x50453
f. TXT x50454
f. TXT x50455
f. TXT x50456
f. TXT x50457
f. TXT x50458
f. TXT x50459
f. TXT x50460
f. TXT x50461
f. TXT x50462
f. TXT x50463
f. TXT x50464
f. TXT x50465
f. TXT x50466
f. TXT x50467
f. TXT x50468
f. TXT x50469
f. TXT x50470
f. TXT x50471
f. TXT x50472
f. TXT x50473
f. TXT x50474
f. TXT x50475
f. TXT x50476
f. TXT x50477
f. TXT x50478
f. TXT x50479
f. TXT x50480
f. TXT x50481
f. TXT x50482
f. TXT x50483
f. TXT x50484
f. TXT x50485
f. TXT x50486
f. TXT x50487
f. TXT x50488
f. TXT x50489
f. TXT x50490
f. TXT x50491
f. TXT x50492
f. TXT x50493
f. TXT x50494
f. TXT x50495
 A y a 0z*y
f. TXT x50497
f. TXT x50498
f. TXT x50499
f. TXT x50500
f. TXT x50501
f. TXT x50502
f. TXT x50503
f. TXT x50504
f. TXT x50505
f. TXT x50506
f. TXT x50507
f. TXT x50508
f. TXT x50509
f. TXT x50510
f. TXT x50511
f. TXT x50512
f. TXT x50513
f. TXT x50514
f. TXT x50515
f. TXT x50516
f. TXT x50517
f. TXT x50518
f. TXT x50519
f. TXT x50520
f. TXT x50521
f. TXT x50522
f. TXT x50523
f. TXT x50524
f. TXT x50525
f. TXT x50526
f. TXT x50527
f. TXT x50528
f. TXT x50529
f. TXT x50530
f. TXT x50531
f. TXT x50532
f. TXT x50533
f. TXT x50534
f. TXT x50535
f. TXT x50536
f. TXT x50537
f. TXT x50538
f. TXT x50539
f. TXT x50540
f. TXT x50541
f. TXT x50542
f. TXT x50543
f. TXT x50544
f. TXT x50545
f. TXT x50546
f. TXT x50547
f. TXT x50548
f. TXT x50549
f. TXT x50550
f. TXT x50551
f. TXT x50552
f. TXT x50553
f. TXT x50554
f. TXT x50555
f. TXT x50556
f. TXT x50557
f. TXT x50558
f. TXT x50559
0*. TXT -- ac0 vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
f. TXT x50561
f. TXT x50562
f. TXT x50563
f. TXT x50564
f. TXT x50565
f. TXT x50566
f. TXT x50567
f. TXT x50568
f. TXT x50569
f. TXT x50570
f. TXT x50571
f. TXT x50572
f. TXT x50573
f. TXT x50574
f. TXT x50575
f. TXT x50576
f. TXT x50577
f. TXT x50578
f. TXT x50579
f. TXT x50580
f. TXT x50581
f. TXT x50582
f. TXT x50583
f. TXT x50584
f. TXT x50585
f. TXT x50586
f. TXT x50587
f. TXT x50588
f. TXT x50589
f. TXT x50590
f. TXT x50591
f. TXT x50592
f. TXT x50593
f. TXT x50594
f. TXT x50595
f. TXT x50596
f. TXT x50597
f. TXT x50598
f. TXT x50599
f. TXT x50600
f. TXT x50601
f. TXT x50602
f. TXT x50603
f. TXT x50604
f. TXT x50605
f. TXT x50606
f. TXT x50607
f. TXT x50608
f. TXT x50609
f. TXT x50610
f. TXT x50611
f. TXT x50612
f. TXT x50613
f. TXT x50614
f. TXT x50615
f. TXT x50616
f. TXT x50617
f. TXT x50618
f. TXT x50619
f. TXT x50620
f. TXT x50621
f. TXT x50622
f. TXT x50623
zx NS *-c acz x
f. TXT x50625
f. TXT x50626
f. TXT x50627
f. TXT x50628
f. TXT x50629
f. TXT x50630
f. TXT x50631
f. TXT x50632
f. TXT x50633
f. TXT x50634
f. TXT x50635
f. TXT x50636
f. TXT x50637
f. TXT x50638
f. TXT x50639
f. TXT x50640
f. TXT x50641
f. TXT x50642
f. TXT x50643
f. TXT x50644
f. TXT x50645
f. TXT x50646
f. TXT x50647
f. TXT x50648
f. TXT x50649
f. TXT x50650
f. TXT x50651
f. TXT x50652
f. TXT x50653
f. TXT x50654
f. TXT x50655
f. TXT x50656
f. TXT x50657
f. TXT x50658
f. TXT x50659
f. TXT x50660
f. TXT x50661
f. TXT x50662
f. TXT x50663
f. TXT x50664
f. TXT x50665
f. TXT x50666
f. TXT x50667
f. TXT x50668
f. TXT x50669
f. TXT x50670
f. TXT x50671
f. TXT x50672
f. TXT x50673
f. TXT x50674
f. TXT x50675
f. TXT x50676
f. TXT x50677
f. TXT x50678
f. TXT x50679
f. TXT x50680
f. TXT x50681
f. TXT x50682
f. TXT x50683
f. TXT x50684
f. TXT x50685
f. TXT x50686
f. TXT x50687
 TXT x-a b yxa
f. TXT x50689
f. TXT x50690
f. TXT x50691
f. TXT x50692
f. TXT x50693
f. TXT x50694
f. TXT x50695
f. TXT x50696
f. TXT x50697
f. TXT x50698
f. TXT x50699
f. TXT x50700
f. TXT x50701
f. TXT x50702
f. TXT x50703
f. TXT x50704
f. TXT x50705
f. TXT x50706
f. TXT x50707
f. TXT x50708
f. TXT x50709
f. TXT x50710
f. TXT x50711
f. TXT x50712
f. TXT x50713
f. TXT x50714
f. TXT x50715
f. TXT x50716
f. TXT x50717
f. TXT x50718
f. TXT x50719
f. TXT x50720
f. TXT x50721
f. TXT x50722
f. TXT x50723
f. TXT x50724
f. TXT x50725
f. TXT x50726
f. TXT x50727
f. TXT x50728
f. TXT x50729
f. TXT x50730
f. TXT x50731
f. TXT x50732
f. TXT x50733
f. TXT x50734
f. TXT x50735
f. TXT x50736
f. TXT x50737
f. TXT x50738
f. TXT x50739
f. TXT x50740
f. TXT x50741
f. TXT x50742
f. TXT x50743
f. TXT x50744
f. TXT x50745
f. TXT x50746
f. TXT x50747
f. TXT x50748
f. TXT x50749
f. TXT x50750
f. TXT x50751
bx*c.*-. TXT 0-0*
f. TXT x50753
f. TXT x50754
f. TXT x50755
f. TXT x50756
f. TXT x50757
f. TXT x50758
f. TXT x50759
f. TXT x50760
f. TXT x50761
f. TXT x50762
f. TXT x50763
f. TXT x50764
f. TXT x50765
f. TXT x50766
f. TXT x50767
f. TXT x50768
f. TXT x50769
f. TXT x50770
f. TXT x50771
f. TXT x50772
f. TXT x50773
f. TXT x50774
f. TXT x50775
f. TXT x50776
f. TXT x50777
f. TXT x50778
f. TXT x50779
f. TXT x50780
f. TXT x50781
f. TXT x50782
f. TXT x50783
f. TXT x50784
f. TXT x50785
f. TXT x50786
f. TXT x50787
f. TXT x50788
f. TXT x50789
f. TXT x50790
f. TXT x50791
f. TXT x50792
f. TXT x50793
f. TXT x50794
f. TXT x50795
f. TXT x50796
f. TXT x50797
f. TXT x50798
f. TXT x50799
f. TXT x50800
f. TXT x50801
f. TXT x50802
f. TXT x50803
f. TXT x50804
f. TXT x50805
f. TXT x50806
f. TXT x50807
f. TXT x50808
f. TXT x50809
f. TXT x50810
f. TXT x50811
f. TXT x50812
f. TXT x50813
f. TXT x50814
f. TXT x50815
; y*
f. TXT x50817
f. TXT x50818
f. TXT x50819
f. TXT x50820
f. TXT x50821
f. TXT x50822
f. TXT x50823
f. TXT x50824
f. TXT x50825
f. TXT x50826
f. TXT x50827
f. TXT x50828
f. TXT x50829
f. TXT x50830
f. TXT x50831
f. TXT x50832
f. TXT x50833
f. TXT x50834
f. TXT x50835
f. TXT x50836
f. TXT x50837
f. TXT x50838
f. TXT x50839
f. TXT x50840
f. TXT x50841
f. TXT x50842
f. TXT x50843
f. TXT x50844
f. TXT x50845
f. TXT x50846
f. TXT x50847
f. TXT x50848
f. TXT x50849
f. TXT x50850
f. TXT x50851
f. TXT x50852
f. TXT x50853
f. TXT x50854
f. TXT x50855
f. TXT x50856
f. TXT x50857
f. TXT x50858
f. TXT x50859
f. TXT x50860
f. TXT x50861
f. TXT x50862
f. TXT x50863
f. TXT x50864
f. TXT x50865
f. TXT x50866
f. TXT x50867
f. TXT x50868
f. TXT x50869
f. TXT x50870
f. TXT x50871
f. TXT x50872
f. TXT x50873
f. TXT x50874
f. TXT x50875
f. TXT x50876
f. TXT x50877
f. TXT x50878
f. TXT x50879
-b TXT zz- z- 0
f. TXT x50881
f. TXT x50882
f. TXT x50883
f. TXT x50884
f. TXT x50885
f. TXT x50886
f. TXT x50887
f. TXT x50888
f. TXT x50889
f. TXT x50890
f. TXT x50891
f. TXT x50892
f. TXT x50893
f. TXT x50894
f. TXT x50895
f. TXT x50896
f. TXT x50897
f. TXT x50898
f. TXT x50899
f. TXT x50900
f. TXT x50901
f. TXT x50902
f. TXT x50903
f. TXT x50904
f. TXT x50905
f. TXT x50906
f. TXT x50907
f. TXT x50908
f. TXT x50909
f. TXT x50910
f. TXT x50911
f. TXT x50912
f. TXT x50913
f. TXT x50914
f. TXT x50915
f. TXT x50916
f. TXT x50917
f. TXT x50918
f. TXT x50919
f. TXT x50920
f. TXT x50921
f. TXT x50922
f. TXT x50923
f. TXT x50924
f. TXT x50925
f. TXT x50926
f. TXT x50927
f. TXT x50928
f. TXT x50929
f. TXT x50930
f. TXT x50931
f. TXT x50932
f. TXT x50933
f. TXT x50934
f. TXT x50935
f. TXT x50936
f. TXT x50937
f. TXT x50938
f. TXT x50939
f. TXT x50940
f. TXT x50941
f. TXT x50942
f. TXT x50943

f. TXT x50945
f. TXT x50946
f. TXT x50947
f. TXT x50948
f. TXT x50949
f. TXT x50950
f. TXT x50951
f. TXT x50952
f. TXT x50953
f. TXT x50954
f. TXT x50955
f. TXT x50956
f. TXT x50957
f. TXT x50958
f. TXT x50959
f. TXT x50960
f. TXT x50961
f. TXT x50962
f. TXT x50963
f. TXT x50964
f. TXT x50965
f. TXT x50966
f. TXT x50967
f. TXT x50968
f. TXT x50969
f. TXT x50970
f. TXT x50971
f. TXT x50972
f. TXT x50973
f. TXT x50974
f. TXT x50975
f. TXT x50976
f. TXT x50977
f. TXT x50978
f. TXT x50979
f. TXT x50980
f. TXT x50981
f. TXT x50982
f. TXT x50983
f. TXT x50984
f. TXT x50985
f. TXT x50986
f. TXT x50987
f. TXT x50988
f. TXT x50989
f. TXT x50990
f. TXT x50991
f. TXT x50992
f. TXT x50993
f. TXT x50994
f. TXT x50995
f. TXT x50996
f. TXT x50997
f. TXT x50998
f. TXT x50999
f. TXT x51000
f. TXT x51001
f. TXT x51002
f. TXT x51003
f. TXT x51004
f. TXT x51005
f. TXT x51006
f. TXT x51007
x. NS - - y
f. TXT x51009
f. TXT x51010
f. TXT x51011
f. TXT x51012
f. TXT x51013
f. TXT x51014
f. TXT x51015
f. TXT x51016
f. TXT x51017
f. TXT x51018
f. TXT x51019
f. TXT x51020
f. TXT x51021
f. TXT x51022
f. TXT x51023
f. TXT x51024
f. TXT x51025
f. TXT x51026
f. TXT x51027
f. TXT x51028
f. TXT x51029
f. TXT x51030
f. TXT x51031
f. TXT x51032
f. TXT x51033
f. TXT x51034
f. TXT x51035
f. TXT x51036
f. TXT x51037
f. TXT x51038
f. TXT x51039
f. TXT x51040
f. TXT x51041
f. TXT x51042
f. TXT x51043
f. TXT x51044
f. TXT x51045
f. TXT x51046
f. TXT x51047
f. TXT x51048
f. TXT x51049
f. TXT x51050
f. TXT x51051
f. TXT x51052
f. TXT x51053
f. TXT x51054
f. TXT x51055
f. TXT x51056
f. TXT x51057
f. TXT x51058
f. TXT x51059
f. TXT x51060
f. TXT x51061
f. TXT x51062
f. TXT x51063
f. TXT x51064
f. TXT x51065
f. TXT x51066
f. TXT x51067
f. TXT x51068
f. TXT x51069
f. TXT x51070
f. TXT x51071
@ TXT *cyc
f. TXT x51073
f. TXT x51074
f. TXT x51075
f. TXT x51076
f. TXT x51077
f. TXT x51078
f. TXT x51079
f. TXT x51080
f. TXT x51081
f. TXT x51082
f. TXT x51083
f. TXT x51084
f. TXT x51085
f. TXT x51086
f. TXT x51087
f. TXT x51088
f. TXT x51089
f. TXT x51090
f. TXT x51091
f. TXT x51092
f. TXT x51093
f. TXT x51094
f. TXT x51095
f. TXT x51096
f. TXT x51097
f. TXT x51098
f. TXT x51099
f. TXT x51100
f. TXT x51101
f. TXT x51102
f. TXT x51103
f. TXT x51104
f. TXT x51105
f. TXT x51106
f. TXT x51107
f. TXT x51108
f. TXT x51109
f. TXT x51110
f. TXT x51111
f. TXT x51112
f. TXT x51113
f. TXT x51114
f. TXT x51115
f. TXT x51116
f. TXT x51117
f. TXT x51118
f. TXT x51119
f. TXT x51120
f. TXT x51121
f. TXT x51122
f. TXT x51123
f. TXT x51124
f. TXT x51125
f. TXT x51126
f. TXT x51127
f. TXT x51128
f. TXT x51129
f. TXT x51130
f. TXT x51131
f. TXT x51132
f. TXT x51133
f. TXT x51134
f. TXT x51135
@ NS *-
f. TXT x51137
f. TXT x51138
f. TXT x51139
f. TXT x51140
f. TXT x51141
f. TXT x51142
f. TXT x51143
f. TXT x51144
f. TXT x51145
f. TXT x51146
f. TXT x51147
f. TXT x51148
f. TXT x51149
f. TXT x51150
f. TXT x51151
f. TXT x51152
f. TXT x51153
f. TXT x51154
f. TXT x51155
f. TXT x51156
f. TXT x51157
f. TXT x51158
f. TXT x51159
f. TXT x51160
f. TXT x51161
f. TXT x51162
f. TXT x51163
f. TXT x51164
f. TXT x51165
f. TXT x51166
f. TXT x51167
f. TXT x51168
f. TXT x51169
f. TXT x51170
f. TXT x51171
f. TXT x51172
f. TXT x51173
f. TXT x51174
f. TXT x51175
f. TXT x51176
f. TXT x51177
f. TXT x51178
f. TXT x51179
f. TXT x51180
f. TXT x51181
f. TXT x51182
f. TXT x51183
f. TXT x51184
f. TXT x51185
f. TXT x51186
f. TXT x51187
f. TXT x51188
f. TXT x51189
f. TXT x51190
f. TXT x51191
f. TXT x51192
f. TXT x51193
f. TXT x51194
f. TXT x51195
f. TXT x51196
f. TXT x51197
f. TXT x51198
f. TXT x51199
; *b
f. TXT x51201
f. TXT x51202
f. TXT x51203
f. TXT x51204
f. TXT x51205
f. TXT x51206
f. TXT x51207
f. TXT x51208
f. TXT x51209
f. TXT x51210
f. TXT x51211
f. TXT x51212
f. TXT x51213
f. TXT x51214
f. TXT x51215
f. TXT x51216
f. TXT x51217
f. TXT x51218
f. TXT x51219
f. TXT x51220
f. TXT x51221
f. TXT x51222
f. TXT x51223
f. TXT x51224
f. TXT x51225
f. TXT x51226
f. TXT x51227
f. TXT x51228
f. TXT x51229
f. TXT x51230
f. TXT x51231
f. TXT x51232
f. TXT x51233
f. TXT x51234
f. TXT x51235
f. TXT x51236
f. TXT x51237
f. TXT x51238
f. TXT x51239
f. TXT x51240
f. TXT x51241
f. TXT x51242
f. TXT x51243
f. TXT x51244
f. TXT x51245
f. TXT x51246
f. TXT x51247
f. TXT x51248
f. TXT x51249
f. TXT x51250
f. TXT x51251
f. TXT x51252
f. TXT x51253
f. TXT x51254
f. TXT x51255
f. TXT x51256
f. TXT x51257
f. TXT x51258
f. TXT x51259
f. TXT x51260
f. TXT x51261
f. TXT x51262
f. TXT x51263

f. TXT x51265
f. TXT x51266
f. TXT x51267
f. TXT x51268
f. TXT x51269
f. TXT x51270
f. TXT x51271
f. TXT x51272
f. TXT x51273
f. TXT x51274
f. TXT x51275
f. TXT x51276
f. TXT x51277
f. TXT x51278
f. TXT x51279
f. TXT x51280
f. TXT x51281
f. TXT x51282
f. TXT x51283
f. TXT x51284
f. TXT x51285
f. TXT x51286
f. TXT x51287
f. TXT x51288
f. TXT x51289
f. TXT x51290
f. TXT x51291
f. TXT x51292
f. TXT x51293
f. TXT x51294
f. TXT x51295
f. TXT x51296
f. TXT x51297
f. TXT x51298
f. TXT x51299
f. TXT x51300
f. TXT x51301
f. TXT x51302
f. TXT x51303
f. TXT x51304
f. TXT x51305
f. TXT x51306
f. TXT x51307
f. TXT x51308
f. TXT x51309
f. TXT x51310
f. TXT x51311
f. TXT x51312
f. TXT x51313
f. TXT x51314
f. TXT x51315
f. TXT x51316
f. TXT x51317
f. TXT x51318
f. TXT x51319
f. TXT x51320
f. TXT x51321
f. TXT x51322
f. TXT x51323
f. TXT x51324
f. TXT x51325
f. TXT x51326
f. TXT x51327
; cycb
f. TXT x51329
f. TXT x51330
f. TXT x51331
f. TXT x51332
f. TXT x51333
f. TXT x51334
f. TXT x51335
f. TXT x51336
f. TXT x51337
f. TXT x51338
f. TXT x51339
f. TXT x51340
f. TXT x51341
f. TXT x51342
f. TXT x51343
f. TXT x51344
f. TXT x51345
f. TXT x51346
f. TXT x51347
f. TXT x51348
f. TXT x51349
f. TXT x51350
f. TXT x51351
f. TXT x51352
f. TXT x51353
f. TXT x51354
f. TXT x51355
f. TXT x51356
f. TXT x51357
f. TXT x51358
f. TXT x51359
f. TXT x51360
f. TXT x51361
f. TXT x51362
f. TXT x51363
f. TXT x51364
f. TXT x51365
f. TXT x51366
f. TXT x51367
f. TXT x51368
f. TXT x51369
f. TXT x51370
f. TXT x51371
f. TXT x51372
f. TXT x51373
f. TXT x51374
f. TXT x51375
f. TXT x51376
f. TXT x51377
f. TXT x51378
f. TXT x51379
f. TXT x51380
f. TXT x51381
f. TXT x51382
f. TXT x51383
f. TXT x51384
f. TXT x51385
f. TXT x51386
f. TXT x51387
f. TXT x51388
f. TXT x51389
f. TXT x51390
f. TXT x51391
$ORIGIN 0.
f. TXT x51393
f. TXT x51394
f. TXT x51395
f. TXT x51396
f. TXT x51397
f. TXT x51398
f. TXT x51399
f. TXT x51400
f. TXT x51401
f. TXT x51402
f. TXT x51403
f. TXT x51404
f. TXT x51405
f. TXT x51406
f. TXT x51407
f. TXT x51408
f. TXT x51409
f. TXT x51410
f. TXT x51411
f. TXT x51412
f. TXT x51413
f. TXT x51414
f. TXT x51415
f. TXT x51416
f. TXT x51417
f. TXT x51418
f. TXT x51419
f. TXT x51420
f. TXT x51421
f. TXT x51422
f. TXT x51423
f. TXT x51424
f. TXT x51425
f. TXT x51426
f. TXT x51427
f. TXT x51428
f. TXT x51429
f. TXT x51430
f. TXT x51431
f. TXT x51432
f. TXT x51433
f. TXT x51434
f. TXT x51435
f. TXT x51436
f. TXT x51437
f. TXT x51438
f. TXT x51439
f. TXT x51440
f. TXT x51441
f. TXT x51442
f. TXT x51443
f. TXT x51444
f. TXT x51445
f. TXT x51446
f. TXT x51447
f. TXT x51448
f. TXT x51449
f. TXT x51450
f. TXT x51451
f. TXT x51452
f. TXT x51453
f. TXT x51454
f. TXT x51455
; x-0z
f. TXT x51457
f. TXT x51458
f. TXT x51459
f. TXT x51460
f. TXT x51461
f. TXT x51462
f. TXT x51463
f. TXT x51464
f. TXT x51465
f. TXT x51466
f. TXT x51467
f. TXT x51468
f. TXT x51469
f. TXT x51470
f. TXT x51471
f. TXT x51472
f. TXT x51473
f. TXT x51474
f. TXT x51475
f. TXT x51476
f. TXT x51477
f. TXT x51478
f. TXT x51479
f. TXT x51480
f. TXT x51481
f. TXT x51482
f. TXT x51483
f. TXT x51484
f. TXT x51485
f. TXT x51486
f. TXT x51487
f. TXT x51488
f. TXT x51489
f. TXT x51490
f. TXT x51491
f. TXT x51492
f. TXT x51493
f. TXT x51494
f. TXT x51495
f. TXT x51496
f. TXT x51497
f. TXT x51498
f. TXT x51499
f. TXT x51500
f. TXT x51501
f. TXT x51502
f. TXT x51503
f. TXT x51504
f. TXT x51505
f. TXT x51506
f. TXT x51507
f. TXT x51508
f. TXT x51509
f. TXT x51510
f. TXT x51511
f. TXT x51512
f. TXT x51513
f. TXT x51514
f. TXT x51515
f. TXT x51516
f. TXT x51517
f. TXT x51518
f. TXT x51519
$ORIGIN -0b0.
f. TXT x51521
f. TXT x51522
f. TXT x51523
f. TXT x51524
f. TXT x51525
f. TXT x51526
f. TXT x51527
f. TXT x51528
f. TXT x51529
f. TXT x51530
f. TXT x51531
f. TXT x51532
f. TXT x51533
f. TXT x51534
f. TXT x51535
f. TXT x51536
f. TXT x51537
f. TXT x51538
f. TXT x51539
f. TXT x51540
f. TXT x51541
f. TXT x51542
f. TXT x51543
f. TXT x51544
f. TXT x51545
f. TXT x51546
f. TXT x51547
f. TXT x51548
f. TXT x51549
f. TXT x51550
f. TXT x51551
f. TXT x51552
f. TXT x51553
f. TXT x51554
f. TXT x51555
f. TXT x51556
f. TXT x51557
f. TXT x51558
f. TXT x51559
f. TXT x51560
f. TXT x51561
f. TXT x51562
f. TXT x51563
f. TXT x51564
f. TXT x51565
f. TXT x51566
f. TXT x51567
f. TXT x51568
f. TXT x51569
f. TXT x51570
f. TXT x51571
f. TXT x51572
f. TXT x51573
f. TXT x51574
f. TXT x51575
f. TXT x51576
f. TXT x51577
f. TXT x51578
f. TXT x51579
f. TXT x51580
f. TXT x51581
f. TXT x51582
f. TXT x51583

f. TXT x51585
f. TXT x51586
f. TXT x51587
f. TXT x51588
f. TXT x51589
f. TXT x51590
f. TXT x51591
f. TXT x51592
f. TXT x51593
f. TXT x51594
f. TXT x51595
f. TXT x51596
f. TXT x51597
f. TXT x51598
f. TXT x51599
f. TXT x51600
f. TXT x51601
f. TXT x51602
f. TXT x51603
f. TXT x51604
f. TXT x51605
f. TXT x51606
f. TXT x51607
f. TXT x51608
f. TXT x51609
f. TXT x51610
f. TXT x51611
f. TXT x51612
f. TXT x51613
f. TXT x51614
f. TXT x51615
f. TXT x51616
f. TXT x51617
f. TXT x51618
f. TXT x51619
f. TXT x51620
f. TXT x51621
f. TXT x51622
f. TXT x51623
f. TXT x51624
f. TXT x51625
f. TXT x51626
f. TXT x51627
f. TXT x51628
f. TXT x51629
f. TXT x51630
f. TXT x51631
f. TXT x51632
f. TXT x51633
f. TXT x51634
f. TXT x51635
f. TXT x51636
f. TXT x51637
f. TXT x51638
f. TXT x51639
f. TXT x51640
f. TXT x51641
f. TXT x51642
f. TXT x51643
f. TXT x51644
f. TXT x51645
f. TXT x51646
f. TXT x51647
@ A *a b0x *bc-
f. TXT x51649
f. TXT x51650
f. TXT x51651
f. TXT x51652
f. TXT x51653
f. TXT x51654
f. TXT x51655
f. TXT x51656
f. TXT x51657
f. TXT x51658
f. TXT x51659
f. TXT x51660
f. TXT x51661
f. TXT x51662
f. TXT x51663
f. TXT x51664
f. TXT x51665
f. TXT x51666
f. TXT x51667
f. TXT x51668
f. TXT x51669
f. TXT x51670
f. TXT x51671
f. TXT x51672
f. TXT x51673
f. TXT x51674
f. TXT x51675
f. TXT x51676
f. TXT x51677
f. TXT x51678
f. TXT x51679
f. TXT x51680
f. TXT x51681
f. TXT x51682
f. TXT x51683
f. TXT x51684
f. TXT x51685
f. TXT x51686
f. TXT x51687
f. TXT x51688
f. TXT x51689
f. TXT x51690
f. TXT x51691
f. TXT x51692
f. TXT x51693
f. TXT x51694
f. TXT x51695
f. TXT x51696
f. TXT x51697
f. TXT x51698
f. TXT x51699
f. TXT x51700
f. TXT x51701
f. TXT x51702
f. TXT x51703
f. TXT x51704
f. TXT x51705
f. TXT x51706
f. TXT x51707
f. TXT x51708
f. TXT x51709
f. TXT x51710
f. TXT x51711
; 0zx
f. TXT x51713
f. TXT x51714
f. TXT x51715
f. TXT x51716
f. TXT x51717
f. TXT x51718
f. TXT x51719
f. TXT x51720
f. TXT x51721
f. TXT x51722
f. TXT x51723
f. TXT x51724
f. TXT x51725
f. TXT x51726
f. TXT x51727
f. TXT x51728
f. TXT x51729
f. TXT x51730
f. TXT x51731
f. TXT x51732
f. TXT x51733
f. TXT x51734
f. TXT x51735
f. TXT x51736
f. TXT x51737
f. TXT x51738
f. TXT x51739
f. TXT x51740
f. TXT x51741
f. TXT x51742
f. TXT x51743
f. TXT x51744
f. TXT x51745
f. TXT x51746
f. TXT x51747
f. TXT x51748
f. TXT x51749
f. TXT x51750
f. TXT x51751
f. TXT x51752
f. TXT x51753
f. TXT x51754
f. TXT x51755
f. TXT x51756
f. TXT x51757
f. TXT x51758
f. TXT x51759
f. TXT x51760
f. TXT x51761
f. TXT x51762
f. TXT x51763
f. TXT x51764
f. TXT x51765
f. TXT x51766
f. TXT x51767
f. TXT x51768
f. TXT x51769
f. TXT x51770
f. TXT x51771
f. TXT x51772
f. TXT x51773
f. TXT x51774
f. TXT x51775
; ya
f. TXT x51777
f. TXT x51778
f. TXT x51779
f. TXT x51780
f. TXT x51781
f. TXT x51782
f. TXT x51783
f. TXT x51784
f. TXT x51785
f. TXT x51786
f. TXT x51787
f. TXT x51788
f. TXT x51789
f. TXT x51790
f. TXT x51791
f. TXT x51792
f. TXT x51793
f. TXT x51794
f. TXT x51795
f. TXT x51796
f. TXT x51797
f. TXT x51798
f. TXT x51799
f. TXT x51800
f. TXT x51801
f. TXT x51802
f. TXT x51803
f. TXT x51804
f. TXT x51805
f. TXT x51806
f. TXT x51807
f. TXT x51808
f. TXT x51809
f. TXT x51810
f. TXT x51811
f. TXT x51812
f. TXT x51813
f. TXT x51814
f. TXT x51815
f. TXT x51816
f. TXT x51817
f. TXT x51818
f. TXT x51819
f. TXT x51820
f. TXT x51821
f. TXT x51822
f. TXT x51823
f. TXT x51824
f. TXT x51825
f. TXT x51826
f. TXT x51827
f. TXT x51828
f. TXT x51829
f. TXT x51830
f. TXT x51831
f. TXT x51832
f. TXT x51833
f. TXT x51834
f. TXT x51835
f. TXT x51836
f. TXT x51837
f. TXT x51838
f. TXT x51839
$TTL 217
f. TXT x51841
f. TXT x51842
f. TXT x51843
f. TXT x51844
f. TXT x51845
f. TXT x51846
f. TXT x51847
f. TXT x51848
f. TXT x51849
f. TXT x51850
f. TXT x51851
f. TXT x51852
f. TXT x51853
f. TXT x51854
f. TXT x51855
f. TXT x51856
f. TXT x51857
f. TXT x51858
f. TXT x51859
f. TXT x51860
f. TXT x51861
f. TXT x51862
f. TXT x51863
f. TXT x51864
f. TXT x51865
f. TXT x51866
f. TXT x51867
f. TXT x51868
f. TXT x51869
f. TXT x51870
f. TXT x51871
f. TXT x51872
f. TXT x51873
f. TXT x51874
f. TXT x51875
f. TXT x51876
f. TXT x51877
f. TXT x51878
f. TXT x51879
f. TXT x51880
f. TXT x51881
f. TXT x51882
f. TXT x51883
f. TXT x51884
f. TXT x51885
f. TXT x51886
f. TXT x51887
f. TXT x51888
f. TXT x51889
f. TXT x51890
f. TXT x51891
f. TXT x51892
f. TXT x51893
f. TXT x51894
f. TXT x51895
f. TXT x51896
f. TXT x51897
f. TXT x51898
f. TXT x51899
f. TXT x51900
f. TXT x51901
f. TXT x51902
f. TXT x51903
xx-a TXT yxya *a- y
f. TXT x51905
f. TXT x51906
f. TXT x51907
f. TXT x51908
f. TXT x51909
f. TXT x51910
f. TXT x51911
f. TXT x51912
f. TXT x51913
f. TXT x51914
f. TXT x51915
f. TXT x51916
f. TXT x51917
f. TXT x51918
f. TXT x51919
f. TXT x51920
f. TXT x51921
f. TXT x51922
f. TXT x51923
f. TXT x51924
f. TXT x51925
f. TXT x51926
f. TXT x51927
f. TXT x51928
f. TXT x51929
f. TXT x51930
f. TXT x51931
f. TXT x51932
f. TXT x51933
f. TXT x51934
f. TXT x51935
f. TXT x51936
f. TXT x51937
f. TXT x51938
f. TXT x51939
f. TXT x51940
f. TXT x51941
f. TXT x51942
f. TXT x51943
f. TXT x51944
f. TXT x51945
f. TXT x51946
f. TXT x51947
f. TXT x51948
f. TXT x51949
f. TXT x51950
f. TXT x51951
f. TXT x51952
f. TXT x51953
f. TXT x51954
f. TXT x51955
f. TXT x51956
f. TXT x51957
f. TXT x51958
f. TXT x51959
f. TXT x51960
f. TXT x51961
f. TXT x51962
f. TXT x51963
f. TXT x51964
f. TXT x51965
f. TXT x51966
f. TXT x51967
@ TXT ba a- -a
f. TXT x51969
f. TXT x51970
f. TXT x51971
f. TXT x51972
f. TXT x51973
f. TXT x51974
f. TXT x51975
f. TXT x51976
f. TXT x51977
f. TXT x51978
f. TXT x51979
f. TXT x51980
f. TXT x51981
f. TXT x51982
f. TXT x51983
f. TXT x51984
f. TXT x51985
f. TXT x51986
f. TXT x51987
f. TXT x51988
f. TXT x51989
f. TXT x51990
f. TXT x51991
f. TXT x51992
f. TXT x51993
f. TXT x51994
f. TXT x51995
f. TXT x51996
f. TXT x51997
f. TXT x51998
f. TXT x51999
f. TXT x52000
f. TXT x52001
f. TXT x52002
f. TXT x52003
f. TXT x52004
f. TXT x52005
f. TXT x52006
f. TXT x52007
f. TXT x52008
f. TXT x52009
f. TXT x52010
f. TXT x52011
f. TXT x52012
f. TXT x52013
f. TXT x52014
f. TXT x52015
f. TXT x52016
f. TXT x52017
f. TXT x52018
f. TXT x52019
f. TXT x52020
f. TXT x52021
f. TXT x52022
f. TXT x52023
f. TXT x52024
f. TXT x52025
f. TXT x52026
f. TXT x52027
f. TXT x52028
f. TXT x52029
f. TXT x52030
f. TXT x52031
@ A c z*x
f. TXT x52033
f. TXT x52034
f. TXT x52035
f. TXT x52036
f. TXT x52037
f. TXT x52038
f. TXT x52039
f. TXT x52040
f. TXT x52041
f. TXT x52042
f. TXT x52043
f. TXT x52044
f. TXT x52045
f. TXT x52046
f. TXT x52047
f. TXT x52048
f. TXT x52049
f. TXT x52050
f. TXT x52051
f. TXT x52052
f. TXT x52053
f. TXT x52054
f. TXT x52055
f. TXT x52056
f. TXT x52057
f. TXT x52058
f. TXT x52059
f. TXT x52060
f. TXT x52061
f. TXT x52062
f. TXT x52063
f. TXT x52064
f. TXT x52065
f. TXT x52066
f. TXT x52067
f. TXT x52068
f. TXT x52069
f. TXT x52070
f. TXT x52071
f. TXT x52072
f. TXT x52073
f. TXT x52074
f. TXT x52075
f. TXT x52076
f. TXT x52077
f. TXT x52078
f. TXT x52079
f. TXT x52080
f. TXT x52081
f. TXT x52082
f. TXT x52083
f. TXT x52084
f. TXT x52085
f. TXT x52086
f. TXT x52087
f. TXT x52088
f. TXT x52089
f. TXT x52090
f. TXT x52091
f. TXT x52092
f. TXT x52093
f. TXT x52094
f. TXT x52095
; z*0x
f. TXT x52097
f. TXT x52098
f. TXT x52099
f. TXT x52100
f. TXT x52101
f. TXT x52102
f. TXT x52103
f. TXT x52104
f. TXT x52105
f. TXT x52106
f. TXT x52107
f. TXT x52108
f. TXT x52109
f. TXT x52110
f. TXT x52111
f. TXT x52112
f. TXT x52113
f. TXT x52114
f. TXT x52115
f. TXT x52116
f. TXT x52117
f. TXT x52118
f. TXT x52119
f. TXT x52120
f. TXT x52121
f. TXT x52122
f. TXT x52123
f. TXT x52124
f. TXT x52125
f. TXT x52126
f. TXT x52127
f. TXT x52128
f. TXT x52129
f. TXT x52130
f. TXT x52131
f. TXT x52132
f. TXT x52133
f. TXT x52134
f. TXT x52135
f. TXT x52136
f. TXT x52137
f. TXT x52138
f. TXT x52139
f. TXT x52140
f. TXT x52141
f. TXT x52142
f. TXT x52143
f. TXT x52144
f. TXT x52145
f. TXT x52146
f. TXT x52147
f. TXT x52148
f. TXT x52149
f. TXT x52150
f. TXT x52151
f. TXT x52152
f. TXT x52153
f. TXT x52154
f. TXT x52155
f. TXT x52156
f. TXT x52157
f. TXT x52158
f. TXT x52159
$ORIGIN z-cb.
f. TXT x52161
f. TXT x52162
f. TXT x52163
f. TXT x52164
f. TXT x52165
f. TXT x52166
f. TXT x52167
f. TXT x52168
f. TXT x52169
f. TXT x52170
f. TXT x52171
f. TXT x52172
f. TXT x52173
f. TXT x52174
f. TXT x52175
f. TXT x52176
f. TXT x52177
f. TXT x52178
f. TXT x52179
f. TXT x52180
f. TXT x52181
f. TXT x52182
f. TXT x52183
f. TXT x52184
f. TXT x52185
f. TXT x52186
f. TXT x52187
f. TXT x52188
f. TXT x52189
f. TXT x52190
f. TXT x52191
f. TXT x52192
f. TXT x52193
f. TXT x52194
f. TXT x52195
f. TXT x52196
f. TXT x52197
f. TXT x52198
f. TXT x52199
f. TXT x52200
f. TXT x52201
f. TXT x52202
f. TXT x52203
f. TXT x52204
f. TXT x52205
f. TXT x52206
f. TXT x52207
f. TXT x52208
f. TXT x52209
f. TXT x52210
f. TXT x52211
f. TXT x52212
f. TXT x52213
f. TXT x52214
f. TXT x52215
f. TXT x52216
f. TXT x52217
f. TXT x52218
f. TXT x52219
f. TXT x52220
f. TXT x52221
f. TXT x52222
f. TXT x52223
$TTL 191847
f. TXT x52225
f. TXT x52226
f. TXT x52227
f. TXT x52228
f. TXT x52229
f. TXT x52230
f. TXT x52231
f. TXT x52232
f. TXT x52233
f. TXT x52234
f. TXT x52235
f. TXT x52236
f. TXT x52237
f. TXT x52238
f. TXT x52239
f. TXT x52240
f. TXT x52241
f. TXT x52242
f. TXT x52243
f. TXT x52244
f. TXT x52245
f. TXT x52246
f. TXT x52247
f. TXT x52248
f. TXT x52249
f. TXT x52250
f. TXT x52251
f. TXT x52252
f. TXT x52253
f. TXT x52254
f. TXT x52255
f. TXT x52256
f. TXT x52257
f. TXT x52258
f. TXT x52259
f. TXT x52260
f. TXT x52261
f. TXT x52262
f. TXT x52263
f. TXT x52264
f. TXT x52265
f. TXT x52266
f. TXT x52267
f. TXT x52268
f. TXT x52269
f. TXT x52270
f. TXT x52271
f. TXT x52272
f. TXT x52273
f. TXT x52274
f. TXT x52275
f. TXT x52276
f. TXT x52277
f. TXT x52278
f. TXT x52279
f. TXT x52280
f. TXT x52281
f. TXT x52282
f. TXT x52283
f. TXT x52284
f. TXT x52285
f. TXT x52286
f. TXT x52287
@ NS a*
f. TXT x52289
f. TXT x52290
f. TXT x52291
f. TXT x52292
f. TXT x52293
f. TXT x52294
f. TXT x52295
f. TXT x52296
f. TXT x52297
f. TXT x52298
f. TXT x52299
f. TXT x52300
f. TXT x52301
f. TXT x52302
f. TXT x52303
f. TXT x52304
f. TXT x52305
f. TXT x52306
f. TXT x52307
f. TXT x52308
f. TXT x52309
f. TXT x52310
f. TXT x52311
f. TXT x52312
f. TXT x52313
f. TXT x52314
f. TXT x52315
f. TXT x52316
f. TXT x52317
f. TXT x52318
f. TXT x52319
f. TXT x52320
f. TXT x52321
f. TXT x52322
f. TXT x52323
f. TXT x52324
f. TXT x52325
f. TXT x52326
f. TXT x52327
f. TXT x52328
f. TXT x52329
f. TXT x52330
f. TXT x52331
f. TXT x52332
f. TXT x52333
f. TXT x52334
f. TXT x52335
f. TXT x52336
f. TXT x52337
f. TXT x52338
f. TXT x52339
f. TXT x52340
f. TXT x52341
f. TXT x52342
f. TXT x52343
f. TXT x52344
f. TXT x52345
f. TXT x52346
f. TXT x52347
f. TXT x52348
f. TXT x52349
f. TXT x52350
f. TXT x52351
$TTL 2147483648
f. TXT x52353
f. TXT x52354
f. TXT x52355
f. TXT x52356
f. TXT x52357
f. TXT x52358
f. TXT x52359
f. TXT x52360
f. TXT x52361
f. TXT x52362
f. TXT x52363
f. TXT x52364
f. TXT x52365
f. TXT x52366
f. TXT x52367
f. TXT x52368
f. TXT x52369
f. TXT x52370
f. TXT x52371
f. TXT x52372
f. TXT x52373
f. TXT x52374
f. TXT x52375
f. TXT x52376
f. TXT x52377
f. TXT x52378
f. TXT x52379
f. TXT x52380
f. TXT x52381
f. TXT x52382
f. TXT x52383
f. TXT x52384
f. TXT x52385
f. TXT x52386
f. TXT x52387
f. TXT x52388
f. TXT x52389
f. TXT x52390
f. TXT x52391
f. TXT x52392
f. TXT x52393
f. TXT x52394
f. TXT x52395
f. TXT x52396
f. TXT x52397
f. TXT x52398
f. TXT x52399
f. TXT x52400
f. TXT x52401
f. TXT x52402
f. TXT x52403
f. TXT x52404
f. TXT x52405
f. TXT x52406
f. TXT x52407
f. TXT x52408
f. TXT x52409
f. TXT x52410
f. TXT x52411
f. TXT x52412
f. TXT x52413
f. TXT x52414
f. TXT x52415
$ORIGIN bbzb.
f. TXT x52417
f. TXT x52418
f. TXT x52419
f. TXT x52420
f. TXT x52421
f. TXT x52422
f. TXT x52423
f. TXT x52424
f. TXT x52425
f. TXT x52426
f. TXT x52427
f. TXT x52428
f. TXT x52429
f. TXT x52430
f. TXT x52431
f. TXT x52432
f. TXT x52433
f. TXT x52434
f. TXT x52435
f. TXT x52436
f. TXT x52437
f. TXT x52438
f. TXT x52439
f. TXT x52440
f. TXT x52441
f. TXT x52442
f. TXT x52443
f. TXT x52444
f. TXT x52445
f. TXT x52446
f. TXT x52447
f. TXT x52448
f. TXT x52449
f. TXT x52450
f. TXT x52451
f. TXT x52452
f. TXT x52453
f. TXT x52454
f. TXT x52455
f. TXT x52456
f. TXT x52457
f. TXT x52458
f. TXT x52459
f. TXT x52460
f. TXT x52461
f. TXT x52462
f. TXT x52463
f. TXT x52464
f. TXT x52465
f. TXT x52466
f. TXT x52467
f. TXT x52468
f. TXT x52469
f. TXT x52470
f. TXT x52471
f. TXT x52472
f. TXT x52473
f. TXT x52474
f. TXT x52475
f. TXT x52476
f. TXT x52477
f. TXT x52478
f. TXT x52479
 A xc c b
f. TXT x52481
f. TXT x52482
f. TXT x52483
f. TXT x52484
f. TXT x52485
f. TXT x52486
f. TXT x52487
f. TXT x52488
f. TXT x52489
f. TXT x52490
f. TXT x52491
f. TXT x52492
f. TXT x52493
f. TXT x52494
f. TXT x52495
f. TXT x52496
f. TXT x52497
f. TXT x52498
f. TXT x52499
f. TXT x52500
f. TXT x52501
f. TXT x52502
f. TXT x52503
f. TXT x52504
f. TXT x52505
f. TXT x52506
f. TXT x52507
f. TXT x52508
f. TXT x52509
f. TXT x52510
f. TXT x52511
f. TXT x52512
f. TXT x52513
f. TXT x52514
f. TXT x52515
f. TXT x52516
f. TXT x52517
f. TXT x52518
f. TXT x52519
f. TXT x52520
f. TXT x52521
f. TXT x52522
f. TXT x52523
f. TXT x52524
f. TXT x52525
f. TXT x52526
f. TXT x52527
f. TXT x52528
f. TXT x52529
f. TXT x52530
f. TXT x52531
f. TXT x52532
f. TXT x52533
f. TXT x52534
f. TXT x52535
f. TXT x52536
f. TXT x52537
f. TXT x52538
f. TXT x52539
f. TXT x52540
f. TXT x52541
f. TXT x52542
f. TXT x52543
 A 0x zyz c
f. TXT x52545
f. TXT x52546
f. TXT x52547
f. TXT x52548
f. TXT x52549
f. TXT x52550
f. TXT x52551
f. TXT x52552
f. TXT x52553
f. TXT x52554
f. TXT x52555
f. TXT x52556
f. TXT x52557
f. TXT x52558
f. TXT x52559
f. TXT x52560
f. TXT x52561
f. TXT x52562
f. TXT x52563
f. TXT x52564
f. TXT x52565
f. TXT x52566
f. TXT x52567
f. TXT x52568
f. TXT x52569
f. TXT x52570
f. TXT x52571
f. TXT x52572
f. TXT x52573
f. TXT x52574
f. TXT x52575
f. TXT x52576
f. TXT x52577
f. TXT x52578
f. TXT x52579
f. TXT x52580
f. TXT x52581
f. TXT x52582
f. TXT x52583
f. TXT x52584
f. TXT x52585
f. TXT x52586
f. TXT x52587
f. TXT x52588
f. TXT x52589
f. TXT x52590
f. TXT x52591
f. TXT x52592
f. TXT x52593
f. TXT x52594
f. TXT x52595
f. TXT x52596
f. TXT x52597
f. TXT x52598
f. TXT x52599
f. TXT x52600
f. TXT x52601
f. TXT x52602
f. TXT x52603
f. TXT x52604
f. TXT x52605
f. TXT x52606
f. TXT x52607
 A a*a
f. TXT x52609
f. TXT x52610
f. TXT x52611
f. TXT x52612
f. TXT x52613
f. TXT x52614
f. TXT x52615
f. TXT x52616
f. TXT x52617
f. TXT x52618
f. TXT x52619
f. TXT x52620
f. TXT x52621
f. TXT x52622
f. TXT x52623
f. TXT x52624
f. TXT x52625
f. TXT x52626
f. TXT x52627
f. TXT x52628
f. TXT x52629
f. TXT x52630
f. TXT x52631
f. TXT x52632
f. TXT x52633
f. TXT x52634
f. TXT x52635
f. TXT x52636
f. TXT x52637
f. TXT x52638
f. TXT x52639
f. TXT x52640
f. TXT x52641
f. TXT x52642
f. TXT x52643
f. TXT x52644
f. TXT x52645
f. TXT x52646
f. TXT x52647
f. TXT x52648
f. TXT x52649
f. TXT x52650
f. TXT x52651
f. TXT x52652
f. TXT x52653
f. TXT x52654
f. TXT x52655
f. TXT x52656
f. TXT x52657
f. TXT x52658
f. TXT x52659
f. TXT x52660
f. TXT x52661
f. TXT x52662
f. TXT x52663
f. TXT x52664
f. TXT x52665
f. TXT x52666
f. TXT x52667
f. TXT x52668
f. TXT x52669
f. TXT x52670
f. TXT x52671
a NS b0z c
f. TXT x52673
f. TXT x52674
f. TXT x52675
f. TXT x52676
f. TXT x52677
f. TXT x52678
f. TXT x52679
f. TXT x52680
f. TXT x52681
f. TXT x52682
f. TXT x52683
f. TXT x52684
f. TXT x52685
f. TXT x52686
f. TXT x52687
f. TXT x52688
f. TXT x52689
f. TXT x52690
f. TXT x52691
f. TXT x52692
f. TXT x52693
f. TXT x52694
f. TXT x52695
f. TXT x52696
f. TXT x52697
f. TXT x52698
f. TXT x52699
f. TXT x52700
f. TXT x52701
f. TXT x52702
f. TXT x52703
f. TXT x52704
f. TXT x52705
f. TXT x52706
f. TXT x52707
f. TXT x52708
f. TXT x52709
f. TXT x52710
f. TXT x52711
f. TXT x52712
f. TXT x52713
f. TXT x52714
f. TXT x52715
f. TXT x52716
f. TXT x52717
f. TXT x52718
f. TXT x52719
f. TXT x52720
f. TXT x52721
f. TXT x52722
f. TXT x52723
f. TXT x52724
f. TXT x52725
f. TXT x52726
f. TXT x52727
f. TXT x52728
f. TXT x52729
f. TXT x52730
f. TXT x52731
f. TXT x52732
f. TXT x52733
f. TXT x52734
f. TXT x52735
xyxx. NS *0*b
f. TXT x52737
f. TXT x52738
f. TXT x52739
f. TXT x52740
f. TXT x52741
f. TXT x52742
f. TXT x52743
f. TXT x52744
f. TXT x52745
f. TXT x52746
f. TXT x52747
f. TXT x52748
f. TXT x52749
f. TXT x52750
f. TXT x52751
f. TXT x52752
f. TXT x52753
f. TXT x52754
f. TXT x52755
f. TXT x52756
f. TXT x52757
f. TXT x52758
f. TXT x52759
f. TXT x52760
f. TXT x52761
f. TXT x52762
f. TXT x52763
f. TXT x52764
f. TXT x52765
f. TXT x52766
f. TXT x52767
f. TXT x52768
f. TXT x52769
f. TXT x52770
f. TXT x52771
f. TXT x52772
f. TXT x52773
f. TXT x52774
f. TXT x52775
f. TXT x52776
f. TXT x52777
f. TXT x52778
f. TXT x52779
f. TXT x52780
f. TXT x52781
f. TXT x52782
f. TXT x52783
f. TXT x52784
f. TXT x52785
f. TXT x52786
f. TXT x52787
f. TXT x52788
f. TXT x52789
f. TXT x52790
f. TXT x52791
f. TXT x52792
f. TXT x52793
f. TXT x52794
f. TXT x52795
f. TXT x52796
f. TXT x52797
f. TXT x52798
f. TXT x52799
@ TXT ac0 yc *
f. TXT x52801
f. TXT x52802
f. TXT x52803
f. TXT x52804
f. TXT x52805
f. TXT x52806
f. TXT x52807
f. TXT x52808
f. TXT x52809
f. TXT x52810
f. TXT x52811
f. TXT x52812
f. TXT x52813
f. TXT x52814
f. TXT x52815
f. TXT x52816
f. TXT x52817
f. TXT x52818
f. TXT x52819
f. TXT x52820
f. TXT x52821
f. TXT x52822
f. TXT x52823
f. TXT x52824
f. TXT x52825
f. TXT x52826
f. TXT x52827
f. TXT x52828
f. TXT x52829
f. TXT x52830
f. TXT x52831
f. TXT x52832
f. TXT x52833
f. TXT x52834
f. TXT x52835
f. TXT x52836
f. TXT x52837
f. TXT x52838
f. TXT x52839
f. TXT x52840
f. TXT x52841
f. TXT x52842
f. TXT x52843
f. TXT x52844
f. TXT x52845
f. TXT x52846
f. TXT x52847
f. TXT x52848
f. TXT x52849
f. TXT x52850
f. TXT x52851
f. TXT x52852
f. TXT x52853
f. TXT x52854
f. TXT x52855
f. TXT x52856
f. TXT x52857
f. TXT x52858
f. TXT x52859
f. TXT x52860
f. TXT x52861
f. TXT x52862
f. TXT x52863
$ORIGIN c.
f. TXT x52865
f. TXT x52866
f. TXT x52867
f. TXT x52868
f. TXT x52869
f. TXT x52870
f. TXT x52871
f. TXT x52872
f. TXT x52873
f. TXT x52874
f. TXT x52875
f. TXT x52876
f. TXT x52877
f. TXT x52878
f. TXT x52879
f. TXT x52880
f. TXT x52881
f. TXT x52882
f. TXT x52883
f. TXT x52884
f. TXT x52885
f. TXT x52886
f. TXT x52887
f. TXT x52888
f. TXT x52889
f. TXT x52890
f. TXT x52891
f. TXT x52892
f. TXT x52893
f. TXT x52894
f. TXT x52895
f. TXT x52896
f. TXT x52897
f. TXT x52898
f. TXT x52899
f. TXT x52900
f. TXT x52901
f. TXT x52902
f. TXT x52903
f. TXT x52904
f. TXT x52905
f. TXT x52906
f. TXT x52907
f. TXT x52908
f. TXT x52909
f. TXT x52910
f. TXT x52911
f. TXT x52912
f. TXT x52913
f. TXT x52914
f. TXT x52915
f. TXT x52916
f. TXT x52917
f. TXT x52918
f. TXT x52919
f. TXT x52920
f. TXT x52921
f. TXT x52922
f. TXT x52923
f. TXT x52924
f. TXT x52925
f. TXT x52926
f. TXT x52927

f. TXT x52929
f. TXT x52930
f. TXT x52931
f. TXT x52932
f. TXT x52933
f. TXT x52934
f. TXT x52935
f. TXT x52936
f. TXT x52937
f. TXT x52938
f. TXT x52939
f. TXT x52940
f. TXT x52941
f. TXT x52942
f. TXT x52943
f. TXT x52944
f. TXT x52945
f. TXT x52946
f. TXT x52947
f. TXT x52948
f. TXT x52949
f. TXT x52950
f. TXT x52951
f. TXT x52952
f. TXT x52953
f. TXT x52954
f. TXT x52955
f. TXT x52956
f. TXT x52957
f. TXT x52958
f. TXT x52959
f. TXT x52960
f. TXT x52961
f. TXT x52962
f. TXT x52963
f. TXT x52964
f. TXT x52965
f. TXT x52966
f. TXT x52967
f. TXT x52968
f. TXT x52969
f. TXT x52970
f. TXT x52971
f. TXT x52972
f. TXT x52973
f. TXT x52974
f. TXT x52975
f. TXT x52976
f. TXT x52977
f. TXT x52978
f. TXT x52979
f. TXT x52980
f. TXT x52981
f. TXT x52982
f. TXT x52983
f. TXT x52984
f. TXT x52985
f. TXT x52986
f. TXT x52987
f. TXT x52988
f. TXT x52989
f. TXT x52990
f. TXT x52991
@ TXT 0 x*
f. TXT x52993
f. TXT x52994
f. TXT x52995
f. TXT x52996
f. TXT x52997
f. TXT x52998
f. TXT x52999
f. TXT x53000
f. TXT x53001
f. TXT x53002
f. TXT x53003
f. TXT x53004
f. TXT x53005
f. TXT x53006
f. TXT x53007
f. TXT x53008
f. TXT x53009
f. TXT x53010
f. TXT x53011
f. TXT x53012
f. TXT x53013
f. TXT x53014
f. TXT x53015
f. TXT x53016
f. TXT x53017
f. TXT x53018
f. TXT x53019
f. TXT x53020
f. TXT x53021
f. TXT x53022
f. TXT x53023
f. TXT x53024
f. TXT x53025
f. TXT x53026
f. TXT x53027
f. TXT x53028
f. TXT x53029
f. TXT x53030
f. TXT x53031
f. TXT x53032
f. TXT x53033
f. TXT x53034
f. TXT x53035
f. TXT x53036
f. TXT x53037
f. TXT x53038
f. TXT x53039
f. TXT x53040
f. TXT x53041
f. TXT x53042
f. TXT x53043
f. TXT x53044
f. TXT x53045
f. TXT x53046
f. TXT x53047
f. TXT x53048
f. TXT x53049
f. TXT x53050
f. TXT x53051
f. TXT x53052
f. TXT x53053
f. TXT x53054
f. TXT x53055

f. TXT x53057
f. TXT x53058
f. TXT x53059
f. TXT x53060
f. TXT x53061
f. TXT x53062
f. TXT x53063
f. TXT x53064
f. TXT x53065
f. TXT x53066
f. TXT x53067
f. TXT x53068
f. TXT x53069
f. TXT x53070
f. TXT x53071
f. TXT x53072
f. TXT x53073
f. TXT x53074
f. TXT x53075
f. TXT x53076
f. TXT x53077
f. TXT x53078
f. TXT x53079
f. TXT x53080
f. TXT x53081
f. TXT x53082
f. TXT x53083
f. TXT x53084
f. TXT x53085
f. TXT x53086
f. TXT x53087
f. TXT x53088
f. TXT x53089
f. TXT x53090
f. TXT x53091
f. TXT x53092
f. TXT x53093
f. TXT x53094
f. TXT x53095
f. TXT x53096
f. TXT x53097
f. TXT x53098
f. TXT x53099
f. TXT x53100
f. TXT x53101
f. TXT x53102
f. TXT x53103
f. TXT x53104
f. TXT x53105
f. TXT x53106
f. TXT x53107
f. TXT x53108
f. TXT x53109
f. TXT x53110
f. TXT x53111
f. TXT x53112
f. TXT x53113
f. TXT x53114
f. TXT x53115
f. TXT x53116
f. TXT x53117
f. TXT x53118
f. TXT x53119
@ TXT c
f. TXT x53121
f. TXT x53122
f. TXT x53123
f. TXT x53124
f. TXT x53125
f. TXT x53126
f. TXT x53127
f. TXT x53128
f. TXT x53129
f. TXT x53130
f. TXT x53131
f. TXT x53132
f. TXT x53133
f. TXT x53134
f. TXT x53135
f. TXT x53136
f. TXT x53137
f. TXT x53138
f. TXT x53139
f. TXT x53140
f. TXT x53141
f. TXT x53142
f. TXT x53143
f. TXT x53144
f. TXT x53145
f. TXT x53146
f. TXT x53147
f. TXT x53148
f. TXT x53149
f. TXT x53150
f. TXT x53151
f. TXT x53152
f. TXT x53153
f. TXT x53154
f. TXT x53155
f. TXT x53156
f. TXT x53157
f. TXT x53158
f. TXT x53159
f. TXT x53160
f. TXT x53161
f. TXT x53162
f. TXT x53163
f. TXT x53164
f. TXT x53165
f. TXT x53166
f. TXT x53167
f. TXT x53168
f. TXT x53169
f. TXT x53170
f. TXT x53171
f. TXT x53172
f. TXT x53173
f. TXT x53174
f. TXT x53175
f. TXT x53176
f. TXT x53177
f. TXT x53178
f. TXT x53179
f. TXT x53180
f. TXT x53181
f. TXT x53182
f. TXT x53183
-x TXT 000
f. TXT x53185
f. TXT x53186
f. TXT x53187
f. TXT x53188
f. TXT x53189
f. TXT x53190
f. TXT x53191
f. TXT x53192
f. TXT x53193
f. TXT x53194
f. TXT x53195
f. TXT x53196
f. TXT x53197
f. TXT x53198
f. TXT x53199
f. TXT x53200
f. TXT x53201
f. TXT x53202
f. TXT x53203
f. TXT x53204
f. TXT x53205
f. TXT x53206
f. TXT x53207
f. TXT x53208
f. TXT x53209
f. TXT x53210
f. TXT x53211
f. TXT x53212
f. TXT x53213
f. TXT x53214
f. TXT x53215
f. TXT x53216
f. TXT x53217
f. TXT x53218
f. TXT x53219
f. TXT x53220
f. TXT x53221
f. TXT x53222
f. TXT x53223
f. TXT x53224
f. TXT x53225
f. TXT x53226
f. TXT x53227
f. TXT x53228
f. TXT x53229
f. TXT x53230
f. TXT x53231
f. TXT x53232
f. TXT x53233
f. TXT x53234
f. TXT x53235
f. TXT x53236
f. TXT x53237
f. TXT x53238
f. TXT x53239
f. TXT x53240
f. TXT x53241
f. TXT x53242
f. TXT x53243
f. TXT x53244
f. TXT x53245
f. TXT x53246
f. TXT x53247
-c.yz*0. A x
f. TXT x53249
f. TXT x53250
f. TXT x53251
f. TXT x53252
f. TXT x53253
f. TXT x53254
f. TXT x53255
f. TXT x53256
f. TXT x53257
f. TXT x53258
f. TXT x53259
f. TXT x53260
f. TXT x53261
f. TXT x53262
f. TXT x53263
f. TXT x53264
f. TXT x53265
f. TXT x53266
f. TXT x53267
f. TXT x53268
f. TXT x53269
f. TXT x53270
f. TXT x53271
f. TXT x53272
f. TXT x53273
f. TXT x53274
f. TXT x53275
f. TXT x53276
f. TXT x53277
f. TXT x53278
f. TXT x53279
f. TXT x53280
f. TXT x53281
f. TXT x53282
f. TXT x53283
f. TXT x53284
f. TXT x53285
f. TXT x53286
f. TXT x53287
f. TXT x53288
f. TXT x53289
f. TXT x53290
f. TXT x53291
f. TXT x53292
f. TXT x53293
f. TXT x53294
f. TXT x53295
f. TXT x53296
f. TXT x53297
f. TXT x53298
f. TXT x53299
f. TXT x53300
f. TXT x53301
f. TXT x53302
f. TXT x53303
f. TXT x53304
f. TXT x53305
f. TXT x53306
f. TXT x53307
f. TXT x53308
f. TXT x53309
f. TXT x53310
f. TXT x53311
$ORIGIN cy.
f. TXT x53313
f. TXT x53314
f. TXT x53315
f. TXT x53316
f. TXT x53317
f. TXT x53318
f. TXT x53319
f. TXT x53320
f. TXT x53321
f. TXT x53322
f. TXT x53323
f. TXT x53324
f. TXT x53325
f. TXT x53326
f. TXT x53327
f. TXT x53328
f. TXT x53329
f. TXT x53330
f. TXT x53331
f. TXT x53332
f. TXT x53333
f. TXT x53334
f. TXT x53335
f. TXT x53336
f. TXT x53337
f. TXT x53338
f. TXT x53339
f. TXT x53340
f. TXT x53341
f. TXT x53342
f. TXT x53343
f. TXT x53344
f. TXT x53345
f. TXT x53346
f. TXT x53347
f. TXT x53348
f. TXT x53349
f. TXT x53350
f. TXT x53351
f. TXT x53352
f. TXT x53353
f. TXT x53354
f. TXT x53355
f. TXT x53356
f. TXT x53357
f. TXT x53358
f. TXT x53359
f. TXT x53360
f. TXT x53361
f. TXT x53362
f. TXT x53363
f. TXT x53364
f. TXT x53365
f. TXT x53366
f. TXT x53367
f. TXT x53368
f. TXT x53369
f. TXT x53370
f. TXT x53371
f. TXT x53372
f. TXT x53373
f. TXT x53374
f. TXT x53375
; b
f. TXT x53377
f. TXT x53378
f. TXT x53379
f. TXT x53380
f. TXT x53381
f. TXT x53382
f. TXT x53383
f. TXT x53384
f. TXT x53385
f. TXT x53386
f. TXT x53387
f. TXT x53388
f. TXT x53389
f. TXT x53390
f. TXT x53391
f. TXT x53392
f. TXT x53393
f. TXT x53394
f. TXT x53395
f. TXT x53396
f. TXT x53397
f. TXT x53398
f. TXT x53399
f. TXT x53400
f. TXT x53401
f. TXT x53402
f. TXT x53403
f. TXT x53404
f. TXT x53405
f. TXT x53406
f. TXT x53407
f. TXT x53408
f. TXT x53409
f. TXT x53410
f. TXT x53411
f. TXT x53412
f. TXT x53413
f. TXT x53414
f. TXT x53415
f. TXT x53416
f. TXT x53417
f. TXT x53418
f. TXT x53419
f. TXT x53420
f. TXT x53421
f. TXT x53422
f. TXT x53423
f. TXT x53424
f. TXT x53425
f. TXT x53426
f. TXT x53427
f. TXT x53428
f. TXT x53429
f. TXT x53430
f. TXT x53431
f. TXT x53432
f. TXT x53433
f. TXT x53434
f. TXT x53435
f. TXT x53436
f. TXT x53437
f. TXT x53438
f. TXT x53439
$ORIGIN z.bb*y.
f. TXT x53441
f. TXT x53442
f. TXT x53443
f. TXT x53444
f. TXT x53445
f. TXT x53446
f. TXT x53447
f. TXT x53448
f. TXT x53449
f. TXT x53450
f. TXT x53451
f. TXT x53452
f. TXT x53453
f. TXT x53454
f. TXT x53455
f. TXT x53456
f. TXT x53457
f. TXT x53458
f. TXT x53459
f. TXT x53460
f. TXT x53461
f. TXT x53462
f. TXT x53463
f. TXT x53464
f. TXT x53465
f. TXT x53466
f. TXT x53467
f. TXT x53468
f. TXT x53469
f. TXT x53470
f. TXT x53471
f. TXT x53472
f. TXT x53473
f. TXT x53474
f. TXT x53475
f. TXT x53476
f. TXT x53477
f. TXT x53478
f. TXT x53479
f. TXT x53480
f. TXT x53481
f. TXT x53482
f. TXT x53483
f. TXT x53484
f. TXT x53485
f. TXT x53486
f. TXT x53487
f. TXT x53488
f. TXT x53489
f. TXT x53490
f. TXT x53491
f. TXT x53492
f. TXT x53493
f. TXT x53494
f. TXT x53495
f. TXT x53496
f. TXT x53497
f. TXT x53498
f. TXT x53499
f. TXT x53500
f. TXT x53501
f. TXT x53502
f. TXT x53503
 A c b
f. TXT x53505
f. TXT x53506
f. TXT x53507
f. TXT x53508
f. TXT x53509
f. TXT x53510
f. TXT x53511
f. TXT x53512
f. TXT x53513
f. TXT x53514
f. TXT x53515
f. TXT x53516
f. TXT x53517
f. TXT x53518
f. TXT x53519
f. TXT x53520
f. TXT x53521
f. TXT x53522
f. TXT x53523
f. TXT x53524
f. TXT x53525
f. TXT x53526
f. TXT x53527
f. TXT x53528
f. TXT x53529
f. TXT x53530
f. TXT x53531
f. TXT x53532
f. TXT x53533
f. TXT x53534
f. TXT x53535
f. TXT x53536
f. TXT x53537
f. TXT x53538
f. TXT x53539
f. TXT x53540
f. TXT x53541
f. TXT x53542
f. TXT x53543
f. TXT x53544
f. TXT x53545
f. TXT x53546
f. TXT x53547
f. TXT x53548
f. TXT x53549
f. TXT x53550
f. TXT x53551
f. TXT x53552
f. TXT x53553
f. TXT x53554
f. TXT x53555
f. TXT x53556
f. TXT x53557
f. TXT x53558
f. TXT x53559
f. TXT x53560
f. TXT x53561
f. TXT x53562
f. TXT x53563
f. TXT x53564
f. TXT x53565
f. TXT x53566
f. TXT x53567
a-- A -y
f. TXT x53569
f. TXT x53570
f. TXT x53571
f. TXT x53572
f. TXT x53573
f. TXT x53574
f. TXT x53575
f. TXT x53576
f. TXT x53577
f. TXT x53578
f. TXT x53579
f. TXT x53580
f. TXT x53581
f. TXT x53582
f. TXT x53583
f. TXT x53584
f. TXT x53585
f. TXT x53586
f. TXT x53587
f. TXT x53588
f. TXT x53589
f. TXT x53590
f. TXT x53591
f. TXT x53592
f. TXT x53593
f. TXT x53594
f. TXT x53595
f. TXT x53596
f. TXT x53597
f. TXT x53598
f. TXT x53599
f. TXT x53600
f. TXT x53601
f. TXT x53602
f. TXT x53603
f. TXT x53604
f. TXT x53605
f. TXT x53606
f. TXT x53607
f. TXT x53608
f. TXT x53609
f. TXT x53610
f. TXT x53611
f. TXT x53612
f. TXT x53613
f. TXT x53614
f. TXT x53615
f. TXT x53616
f. TXT x53617
f. TXT x53618
f. TXT x53619
f. TXT x53620
f. TXT x53621
f. TXT x53622
f. TXT x53623
f. TXT x53624
f. TXT x53625
f. TXT x53626
f. TXT x53627
f. TXT x53628
f. TXT x53629
f. TXT x53630
f. TXT x53631
$TTL 248645
f. TXT x53633
f. TXT x53634
f. TXT x53635
f. TXT x53636
f. TXT x53637
f. TXT x53638
f. TXT x53639
f. TXT x53640
f. TXT x53641
f. TXT x53642
f. TXT x53643
f. TXT x53644
f. TXT x53645
f. TXT x53646
f. TXT x53647
f. TXT x53648
f. TXT x53649
f. TXT x53650
f. TXT x53651
f. TXT x53652
f. TXT x53653
f. TXT x53654
f. TXT x53655
f. TXT x53656
f. TXT x53657
f. TXT x53658
f. TXT x53659
f. TXT x53660
f. TXT x53661
f. TXT x53662
f. TXT x53663
f. TXT x53664
f. TXT x53665
f. TXT x53666
f. TXT x53667
f. TXT x53668
f. TXT x53669
f. TXT x53670
f. TXT x53671
f. TXT x53672
f. TXT x53673
f. TXT x53674
f. TXT x53675
f. TXT x53676
f. TXT x53677
f. TXT x53678
f. TXT x53679
f. TXT x53680
f. TXT x53681
f. TXT x53682
f. TXT x53683
f. TXT x53684
f. TXT x53685
f. TXT x53686
f. TXT x53687
f. TXT x53688
f. TXT x53689
f. TXT x53690
f. TXT x53691
f. TXT x53692
f. TXT x53693
f. TXT x53694
f. TXT x53695
$TTL 100721318
f. TXT x53697
f. TXT x53698
f. TXT x53699
f. TXT x53700
f. TXT x53701
f. TXT x53702
f. TXT x53703
f. TXT x53704
f. TXT x53705
f. TXT x53706
f. TXT x53707
f. TXT x53708
f. TXT x53709
f. TXT x53710
f. TXT x53711
f. TXT x53712
f. TXT x53713
f. TXT x53714
f. TXT x53715
f. TXT x53716
f. TXT x53717
f. TXT x53718
f. TXT x53719
f. TXT x53720
f. TXT x53721
f. TXT x53722
f. TXT x53723
f. TXT x53724
f. TXT x53725
f. TXT x53726
f. TXT x53727
f. TXT x53728
f. TXT x53729
f. TXT x53730
f. TXT x53731
f. TXT x53732
f. TXT x53733
f. TXT x53734
f. TXT x53735
f. TXT x53736
f. TXT x53737
f. TXT x53738
f. TXT x53739
f. TXT x53740
f. TXT x53741
f. TXT x53742
f. TXT x53743
f. TXT x53744
f. TXT x53745
f. TXT x53746
f. TXT x53747
f. TXT x53748
f. TXT x53749
f. TXT x53750
f. TXT x53751
f. TXT x53752
f. TXT x53753
f. TXT x53754
f. TXT x53755
f. TXT x53756
f. TXT x53757
f. TXT x53758
f. TXT x53759
abzc A b
f. TXT x53761
f. TXT x53762
f. TXT x53763
f. TXT x53764
f. TXT x53765
f. TXT x53766
f. TXT x53767
f. TXT x53768
f. TXT x53769
f. TXT x53770
f. TXT x53771
f. TXT x53772
f. TXT x53773
f. TXT x53774
f. TXT x53775
f. TXT x53776
f. TXT x53777
f. TXT x53778
f. TXT x53779
f. TXT x53780
f. TXT x53781
f. TXT x53782
f. TXT x53783
f. TXT x53784
f. TXT x53785
f. TXT x53786
f. TXT x53787
f. TXT x53788
f. TXT x53789
f. TXT x53790
f. TXT x53791
f. TXT x53792
f. TXT x53793
f. TXT x53794
f. TXT x53795
f. TXT x53796
f. TXT x53797
f. TXT x53798
f. TXT x53799
f. TXT x53800
f. TXT x53801
f. TXT x53802
f. TXT x53803
f. TXT x53804
f. TXT x53805
f. TXT x53806
f. TXT x53807
f. TXT x53808
f. TXT x53809
f. TXT x53810
f. TXT x53811
f. TXT x53812
f. TXT x53813
f. TXT x53814
f. TXT x53815
f. TXT x53816
f. TXT x53817
f. TXT x53818
f. TXT x53819
f. TXT x53820
f. TXT x53821
f. TXT x53822
f. TXT x53823
@ NS bx
f. TXT x53825
f. TXT x53826
f. TXT x53827
f. TXT x53828
f. TXT x53829
f. TXT x53830
f. TXT x53831
f. TXT x53832
f. TXT x53833
f. TXT x53834
f. TXT x53835
f. TXT x53836
f. TXT x53837
f. TXT x53838
f. TXT x53839
f. TXT x53840
f. TXT x53841
f. TXT x53842
f. TXT x53843
f. TXT x53844
f. TXT x53845
f. TXT x53846
f. TXT x53847
f. TXT x53848
f. TXT x53849
f. TXT x53850
f. TXT x53851
f. TXT x53852
f. TXT x53853
f. TXT x53854
f. TXT x53855
f. TXT x53856
f. TXT x53857
f. TXT x53858
f. TXT x53859
f. TXT x53860
f. TXT x53861
f. TXT x53862
f. TXT x53863
f. TXT x53864
f. TXT x53865
f. TXT x53866
f. TXT x53867
f. TXT x53868
f. TXT x53869
f. TXT x53870
f. TXT x53871
f. TXT x53872
f. TXT x53873
f. TXT x53874
f. TXT x53875
f. TXT x53876
f. TXT x53877
f. TXT x53878
f. TXT x53879
f. TXT x53880
f. TXT x53881
f. TXT x53882
f. TXT x53883
f. TXT x53884
f. TXT x53885
f. TXT x53886
f. TXT x53887
; zya
f. TXT x53889
f. TXT x53890
f. TXT x53891
f. TXT x53892
f. TXT x53893
f. TXT x53894
f. TXT x53895
f. TXT x53896
f. TXT x53897
f. TXT x53898
f. TXT x53899
f. TXT x53900
f. TXT x53901
f. TXT x53902
f. TXT x53903
f. TXT x53904
f. TXT x53905
f. TXT x53906
f. TXT x53907
f. TXT x53908
f. TXT x53909
f. TXT x53910
f. TXT x53911
f. TXT x53912
f. TXT x53913
f. TXT x53914
f. TXT x53915
f. TXT x53916
f. TXT x53917
f. TXT x53918
f. TXT x53919
f. TXT x53920
f. TXT x53921
f. TXT x53922
f. TXT x53923
f. TXT x53924
f. TXT x53925
f. TXT x53926
f. TXT x53927
f. TXT x53928
f. TXT x53929
f. TXT x53930
f. TXT x53931
f. TXT x53932
f. TXT x53933
f. TXT x53934
f. TXT x53935
f. TXT x53936
f. TXT x53937
f. TXT x53938
f. TXT x53939
f. TXT x53940
f. TXT x53941
f. TXT x53942
f. TXT x53943
f. TXT x53944
f. TXT x53945
f. TXT x53946
f. TXT x53947
f. TXT x53948
f. TXT x53949
f. TXT x53950
f. TXT x53951
 NS cx0a
f. TXT x53953
f. TXT x53954
f. TXT x53955
f. TXT x53956
f. TXT x53957
f. TXT x53958
f. TXT x53959
f. TXT x53960
f. TXT x53961
f. TXT x53962
f. TXT x53963
f. TXT x53964
f. TXT x53965
f. TXT x53966
f. TXT x53967
f. TXT x53968
f. TXT x53969
f. TXT x53970
f. TXT x53971
f. TXT x53972
f. TXT x53973
f. TXT x53974
f. TXT x53975
f. TXT x53976
f. TXT x53977
f. TXT x53978
f. TXT x53979
f. TXT x53980
f. TXT x53981
f. TXT x53982
f. TXT x53983
f. TXT x53984
f. TXT x53985
f. TXT x53986
f. TXT x53987
f. TXT x53988
f. TXT x53989
f. TXT x53990
f. TXT x53991
f. TXT x53992
f. TXT x53993
f. TXT x53994
f. TXT x53995
f. TXT x53996
f. TXT x53997
f. TXT x53998
f. TXT x53999
f. TXT x54000
f. TXT x54001
f. TXT x54002
f. TXT x54003
f. TXT x54004
f. TXT x54005
f. TXT x54006
f. TXT x54007
f. TXT x54008
f. TXT x54009
f. TXT x54010
f. TXT x54011
f. TXT x54012
f. TXT x54013
f. TXT x54014
f. TXT x54015
$TTL 2147483648
f. TXT x54017
f. TXT x54018
f. TXT x54019
f. TXT x54020
f. TXT x54021
f. TXT x54022
f. TXT x54023
f. TXT x54024
f. TXT x54025
f. TXT x54026
f. TXT x54027
f. TXT x54028
f. TXT x54029
f. TXT x54030
f. TXT x54031
f. TXT x54032
f. TXT x54033
f. TXT x54034
f. TXT x54035
f. TXT x54036
f. TXT x54037
f. TXT x54038
f. TXT x54039
f. TXT x54040
f. TXT x54041
f. TXT x54042
f. TXT x54043
f. TXT x54044
f. TXT x54045
f. TXT x54046
f. TXT x54047
f. TXT x54048
f. TXT x54049
f. TXT x54050
f. TXT x54051
f. TXT x54052
f. TXT x54053
f. TXT x54054
f. TXT x54055
f. TXT x54056
f. TXT x54057
f. TXT x54058
f. TXT x54059
f. TXT x54060
f. TXT x54061
f. TXT x54062
f. TXT x54063
f. TXT x54064
f. TXT x54065
f. TXT x54066
f. TXT x54067
f. TXT x54068
f. TXT x54069
f. TXT x54070
f. TXT x54071
f. TXT x54072
f. TXT x54073
f. TXT x54074
f. TXT x54075
f. TXT x54076
f. TXT x54077
f. TXT x54078
f. TXT x54079
@ TXT b*c ya-b *a
f. TXT x54081
f. TXT x54082
f. TXT x54083
f. TXT x54084
f. TXT x54085
f. TXT x54086
f. TXT x54087
f. TXT x54088
f. TXT x54089
f. TXT x54090
f. TXT x54091
f. TXT x54092
f. TXT x54093
f. TXT x54094
f. TXT x54095
f. TXT x54096
f. TXT x54097
f. TXT x54098
f. TXT x54099
f. TXT x54100
f. TXT x54101
f. TXT x54102
f. TXT x54103
f. TXT x54104
f. TXT x54105
f. TXT x54106
f. TXT x54107
f. TXT x54108
f. TXT x54109
f. TXT x54110
f. TXT x54111
f. TXT x54112
f. TXT x54113
f. TXT x54114
f. TXT x54115
f. TXT x54116
f. TXT x54117
f. TXT x54118
f. TXT x54119
f. TXT x54120
f. TXT x54121
f. TXT x54122
f. TXT x54123
f. TXT x54124
f. TXT x54125
f. TXT x54126
f. TXT x54127
f. TXT x54128
f. TXT x54129
f. TXT x54130
f. TXT x54131
f. TXT x54132
f. TXT x54133
f. TXT x54134
f. TXT x54135
f. TXT x54136
f. TXT x54137
f. TXT x54138
f. TXT x54139
f. TXT x54140
f. TXT x54141
f. TXT x54142
f. TXT x54143
 NS b*0* c
f. TXT x54145
f. TXT x54146
f. TXT x54147
f. TXT x54148
f. TXT x54149
f. TXT x54150
f. TXT x54151
f. TXT x54152
f. TXT x54153
f. TXT x54154
f. TXT x54155
f. TXT x54156
f. TXT x54157
f. TXT x54158
f. TXT x54159
f. TXT x54160
f. TXT x54161
f. TXT x54162
f. TXT x54163
f. TXT x54164
f. TXT x54165
f. TXT x54166
f. TXT x54167
f. TXT x54168
f. TXT x54169
f. TXT x54170
f. TXT x54171
f. TXT x54172
f. TXT x54173
f. TXT x54174
f. TXT x54175
f. TXT x54176
f. TXT x54177
f. TXT x54178
f. TXT x54179
f. TXT x54180
f. TXT x54181
f. TXT x54182
f. TXT x54183
f. TXT x54184
f. TXT x54185
f. TXT x54186
f. TXT x54187
f. TXT x54188
f. TXT x54189
f. TXT x54190
f. TXT x54191
f. TXT x54192
f. TXT x54193
f. TXT x54194
f. TXT x54195
f. TXT x54196
f. TXT x54197
f. TXT x54198
f. TXT x54199
f. TXT x54200
f. TXT x54201
f. TXT x54202
f. TXT x54203
f. TXT x54204
f. TXT x54205
f. TXT x54206
f. TXT x54207
 A abxz
f. TXT x54209
f. TXT x54210
f. TXT x54211
f. TXT x54212
f. TXT x54213
f. TXT x54214
f. TXT x54215
f. TXT x54216
f. TXT x54217
f. TXT x54218
f. TXT x54219
f. TXT x54220
f. TXT x54221
f. TXT x54222
f. TXT x54223
f. TXT x54224
f. TXT x54225
f. TXT x54226
f. TXT x54227
f. TXT x54228
f. TXT x54229
f. TXT x54230
f. TXT x54231
f. TXT x54232
f. TXT x54233
f. TXT x54234
f. TXT x54235
f. TXT x54236
f. TXT x54237
f. TXT x54238
f. TXT x54239
f. TXT x54240
f. TXT x54241
f. TXT x54242
f. TXT x54243
f. TXT x54244
f. TXT x54245
f. TXT x54246
f. TXT x54247
f. TXT x54248
f. TXT x54249
f. TXT x54250
f. TXT x54251
f. TXT x54252
f. TXT x54253
f. TXT x54254
f. TXT x54255
f. TXT x54256
f. TXT x54257
f. TXT x54258
f. TXT x54259
f. TXT x54260
f. TXT x54261
f. TXT x54262
f. TXT x54263
f. TXT x54264
f. TXT x54265
f. TXT x54266
f. TXT x54267
f. TXT x54268
f. TXT x54269
f. TXT x54270
f. TXT x54271
$TTL 91
f. TXT x54273
f. TXT x54274
f. TXT x54275
f. TXT x54276
f. TXT x54277
f. TXT x54278
f. TXT x54279
f. TXT x54280
f. TXT x54281
f. TXT x54282
f. TXT x54283
f. TXT x54284
f. TXT x54285
f. TXT x54286
f. TXT x54287
f. TXT x54288
f. TXT x54289
f. TXT x54290
f. TXT x54291
f. TXT x54292
f. TXT x54293
f. TXT x54294
f. TXT x54295
f. TXT x54296
f. TXT x54297
f. TXT x54298
f. TXT x54299
f. TXT x54300
f. TXT x54301
f. TXT x54302
f. TXT x54303
f. TXT x54304
f. TXT x54305
f. TXT x54306
f. TXT x54307
f. TXT x54308
f. TXT x54309
f. TXT x54310
f. TXT x54311
f. TXT x54312
f. TXT x54313
f. TXT x54314
f. TXT x54315
f. TXT x54316
f. TXT x54317
f. TXT x54318
f. TXT x54319
f. TXT x54320
f. TXT x54321
f. TXT x54322
f. TXT x54323
f. TXT x54324
f. TXT x54325
f. TXT x54326
f. TXT x54327
f. TXT x54328
f. TXT x54329
f. TXT x54330
f. TXT x54331
f. TXT x54332
f. TXT x54333
f. TXT x54334
f. TXT x54335

f. TXT x54337
f. TXT x54338
f. TXT x54339
f. TXT x54340
f. TXT x54341
f. TXT x54342
f. TXT x54343
f. TXT x54344
f. TXT x54345
f. TXT x54346
f. TXT x54347
f. TXT x54348
f. TXT x54349
f. TXT x54350
f. TXT x54351
f. TXT x54352
f. TXT x54353
f. TXT x54354
f. TXT x54355
f. TXT x54356
f. TXT x54357
f. TXT x54358
f. TXT x54359
f. TXT x54360
f. TXT x54361
f. TXT x54362
f. TXT x54363
f. TXT x54364
f. TXT x54365
f. TXT x54366
f. TXT x54367
f. TXT x54368
f. TXT x54369
f. TXT x54370
f. TXT x54371
f. TXT x54372
f. TXT x54373
f. TXT x54374
f. TXT x54375
f. TXT x54376
f. TXT x54377
f. TXT x54378
f. TXT x54379
f. TXT x54380
f. TXT x54381
f. TXT x54382
f. TXT x54383
f. TXT x54384
f. TXT x54385
f. TXT x54386
f. TXT x54387
f. TXT x54388
f. TXT x54389
f. TXT x54390
f. TXT x54391
f. TXT x54392
f. TXT x54393
f. TXT x54394
f. TXT x54395
f. TXT x54396
f. TXT x54397
f. TXT x54398
f. TXT x54399
 A c0-a
f. TXT x54401
f. TXT x54402
f. TXT x54403
f. TXT x54404
f. TXT x54405
f. TXT x54406
f. TXT x54407
f. TXT x54408
f. TXT x54409
f. TXT x54410
f. TXT x54411
f. TXT x54412
f. TXT x54413
f. TXT x54414
f. TXT x54415
f. TXT x54416
f. TXT x54417
f. TXT x54418
f. TXT x54419
f. TXT x54420
f. TXT x54421
f. TXT x54422
f. TXT x54423
f. TXT x54424
f. TXT x54425
f. TXT x54426
f. TXT x54427
f. TXT x54428
f. TXT x54429
f. TXT x54430
f. TXT x54431
f. TXT x54432
f. TXT x54433
f. TXT x54434
f. TXT x54435
f. TXT x54436
f. TXT x54437
f. TXT x54438
f. TXT x54439
f. TXT x54440
f. TXT x54441
f. TXT x54442
f. TXT x54443
f. TXT x54444
f. TXT x54445
f. TXT x54446
f. TXT x54447
f. TXT x54448
f. TXT x54449
f. TXT x54450
f. TXT x54451
f. TXT x54452
f. TXT x54453
f. TXT x54454
f. TXT x54455
f. TXT x54456
f. TXT x54457
f. TXT x54458
f. TXT x54459
f. TXT x54460
f. TXT x54461
f. TXT x54462
f. TXT x54463

f. TXT x54465
f. TXT x54466
f. TXT x54467
f. TXT x54468
f. TXT x54469
f. TXT x54470
f. TXT x54471
f. TXT x54472
f. TXT x54473
f. TXT x54474
f. TXT x54475
f. TXT x54476
f. TXT x54477
f. TXT x54478
f. TXT x54479
f. TXT x54480
f. TXT x54481
f. TXT x54482
f. TXT x54483
f. TXT x54484
f. TXT x54485
f. TXT x54486
f. TXT x54487
f. TXT x54488
f. TXT x54489
f. TXT x54490
f. TXT x54491
f. TXT x54492
f. TXT x54493
f. TXT x54494
f. TXT x54495
f. TXT x54496
f. TXT x54497
f. TXT x54498
f. TXT x54499
f. TXT x54500
f. TXT x54501
f. TXT x54502
f. TXT x54503
f. TXT x54504
f. TXT x54505
f. TXT x54506
f. TXT x54507
f. TXT x54508
f. TXT x54509
f. TXT x54510
f. TXT x54511
f. TXT x54512
f. TXT x54513
f. TXT x54514
f. TXT x54515
f. TXT x54516
f. TXT x54517
f. TXT x54518
f. TXT x54519
f. TXT x54520
f. TXT x54521
f. TXT x54522
f. TXT x54523
f. TXT x54524
f. TXT x54525
f. TXT x54526
f. TXT x54527
$ORIGIN z.0.
f. TXT x54529
f. TXT x54530
f. TXT x54531
f. TXT x54532
f. TXT x54533
f. TXT x54534
f. TXT x54535
f. TXT x54536
f. TXT x54537
f. TXT x54538
f. TXT x54539
f. TXT x54540
f. TXT x54541
f. TXT x54542
f. TXT x54543
f. TXT x54544
f. TXT x54545
f. TXT x54546
f. TXT x54547
f. TXT x54548
f. TXT x54549
f. TXT x54550
f. TXT x54551
f. TXT x54552
f. TXT x54553
f. TXT x54554
f. TXT x54555
f. TXT x54556
f. TXT x54557
f. TXT x54558
f. TXT x54559
f. TXT x54560
f. TXT x54561
f. TXT x54562
f. TXT x54563
f. TXT x54564
f. TXT x54565
f. TXT x54566
f. TXT x54567
f. TXT x54568
f. TXT x54569
f. TXT x54570
f. TXT x54571
f. TXT x54572
f. TXT x54573
f. TXT x54574
f. TXT x54575
f. TXT x54576
f. TXT x54577
f. TXT x54578
f. TXT x54579
f. TXT x54580
f. TXT x54581
f. TXT x54582
f. TXT x54583
f. TXT x54584
f. TXT x54585
f. TXT x54586
f. TXT x54587
f. TXT x54588
f. TXT x54589
f. TXT x54590
f. TXT x54591
cy0.b0cx. NS c
f. TXT x54593
f. TXT x54594
f. TXT x54595
f. TXT x54596
f. TXT x54597
f. TXT x54598
f. TXT x54599
f. TXT x54600
f. TXT x54601
f. TXT x54602
f. TXT x54603
f. TXT x54604
f. TXT x54605
f. TXT x54606
f. TXT x54607
f. TXT x54608
f. TXT x54609
f. TXT x54610
f. TXT x54611
f. TXT x54612
f. TXT x54613
f. TXT x54614
f. TXT x54615
f. TXT x54616
f. TXT x54617
f. TXT x54618
f. TXT x54619
f. TXT x54620
f. TXT x54621
f. TXT x54622
f. TXT x54623
f. TXT x54624
f. TXT x54625
f. TXT x54626
f. TXT x54627
f. TXT x54628
f. TXT x54629
f. TXT x54630
f. TXT x54631
f. TXT x54632
f. TXT x54633
f. TXT x54634
f. TXT x54635
f. TXT x54636
f. TXT x54637
f. TXT x54638
f. TXT x54639
f. TXT x54640
f. TXT x54641
f. TXT x54642
f. TXT x54643
f. TXT x54644
f. TXT x54645
f. TXT x54646
f. TXT x54647
f. TXT x54648
f. TXT x54649
f. TXT x54650
f. TXT x54651
f. TXT x54652
f. TXT x54653
f. TXT x54654
f. TXT x54655

f. TXT x54657
f. TXT x54658
f. TXT x54659
f. TXT x54660
f. TXT x54661
f. TXT x54662
f. TXT x54663
f. TXT x54664
f. TXT x54665
f. TXT x54666
f. TXT x54667
f. TXT x54668
f. TXT x54669
f. TXT x54670
f. TXT x54671
f. TXT x54672
f. TXT x54673
f. TXT x54674
f. TXT x54675
f. TXT x54676
f. TXT x54677
f. TXT x54678
f. TXT x54679
f. TXT x54680
f. TXT x54681
f. TXT x54682
f. TXT x54683
f. TXT x54684
f. TXT x54685
f. TXT x54686
f. TXT x54687
f. TXT x54688
f. TXT x54689
f. TXT x54690
f. TXT x54691
f. TXT x54692
f. TXT x54693
f. TXT x54694
f. TXT x54695
f. TXT x54696
f. TXT x54697
f. TXT x54698
f. TXT x54699
f. TXT x54700
f. TXT x54701
f. TXT x54702
f. TXT x54703
f. TXT x54704
f. TXT x54705
f. TXT x54706
f. TXT x54707
f. TXT x54708
f. TXT x54709
f. TXT x54710
f. TXT x54711
f. TXT x54712
f. TXT x54713
f. TXT x54714
f. TXT x54715
f. TXT x54716
f. TXT x54717
f. TXT x54718
f. TXT x54719
; -c
f. TXT x54721
f. TXT x54722
f. TXT x54723
f. TXT x54724
f. TXT x54725
f. TXT x54726
f. TXT x54727
f. TXT x54728
f. TXT x54729
f. TXT x54730
f. TXT x54731
f. TXT x54732
f. TXT x54733
f. TXT x54734
f. TXT x54735
f. TXT x54736
f. TXT x54737
f. TXT x54738
f. TXT x54739
f. TXT x54740
f. TXT x54741
f. TXT x54742
f. TXT x54743
f. TXT x54744
f. TXT x54745
f. TXT x54746
f. TXT x54747
f. TXT x54748
f. TXT x54749
f. TXT x54750
f. TXT x54751
f. TXT x54752
f. TXT x54753
f. TXT x54754
f. TXT x54755
f. TXT x54756
f. TXT x54757
f. TXT x54758
f. TXT x54759
f. TXT x54760
f. TXT x54761
f. TXT x54762
f. TXT x54763
f. TXT x54764
f. TXT x54765
f. TXT x54766
f. TXT x54767
f. TXT x54768
f. TXT x54769
f. TXT x54770
f. TXT x54771
f. TXT x54772
f. TXT x54773
f. TXT x54774
f. TXT x54775
f. TXT x54776
f. TXT x54777
f. TXT x54778
f. TXT x54779
f. TXT x54780
f. TXT x54781
f. TXT x54782
f. TXT x54783
$TTL 12
f. TXT x54785
f. TXT x54786
f. TXT x54787
f. TXT x54788
f. TXT x54789
f. TXT x54790
f. TXT x54791
f. TXT x54792
f. TXT x54793
f. TXT x54794
f. TXT x54795
f. TXT x54796
f. TXT x54797
f. TXT x54798
f. TXT x54799
f. TXT x54800
f. TXT x54801
f. TXT x54802
f. TXT x54803
f. TXT x54804
f. TXT x54805
f. TXT x54806
f. TXT x54807
f. TXT x54808
f. TXT x54809
f. TXT x54810
f. TXT x54811
f. TXT x54812
f. TXT x54813
f. TXT x54814
f. TXT x54815
f. TXT x54816
f. TXT x54817
f. TXT x54818
f. TXT x54819
f. TXT x54820
f. TXT x54821
f. TXT x54822
f. TXT x54823
f. TXT x54824
f. TXT x54825
f. TXT x54826
f. TXT x54827
f. TXT x54828
f. TXT x54829
f. TXT x54830
f. TXT x54831
f. TXT x54832
f. TXT x54833
f. TXT x54834
f. TXT x54835
f. TXT x54836
f. TXT x54837
f. TXT x54838
f. TXT x54839
f. TXT x54840
f. TXT x54841
f. TXT x54842
f. TXT x54843
f. TXT x54844
f. TXT x54845
f. TXT x54846
f. TXT x54847
-*-.bax. TXT a abx a-
f. TXT x54849
f. TXT x54850
f. TXT x54851
f. TXT x54852
f. TXT x54853
f. TXT x54854
f. TXT x54855
f. TXT x54856
f. TXT x54857
f. TXT x54858
f. TXT x54859
f. TXT x54860
f. TXT x54861
f. TXT x54862
f. TXT x54863
f. TXT x54864
f. TXT x54865
f. TXT x54866
f. TXT x54867
f. TXT x54868
f. TXT x54869
f. TXT x54870
f. TXT x54871
f. TXT x54872
f. TXT x54873
f. TXT x54874
f. TXT x54875
f. TXT x54876
f. TXT x54877
f. TXT x54878
f. TXT x54879
f. TXT x54880
f. TXT x54881
f. TXT x54882
f. TXT x54883
f. TXT x54884
f. TXT x54885
f. TXT x54886
f. TXT x54887
f. TXT x54888
f. TXT x54889
f. TXT x54890
f. TXT x54891
f. TXT x54892
f. TXT x54893
f. TXT x54894
f. TXT x54895
f. TXT x54896
f. TXT x54897
f. TXT x54898
f. TXT x54899
f. TXT x54900
f. TXT x54901
f. TXT x54902
f. TXT x54903
f. TXT x54904
f. TXT x54905
f. TXT x54906
f. TXT x54907
f. TXT x54908
f. TXT x54909
f. TXT x54910
f. TXT x54911
 NS xy* -x --z
f. TXT x54913
f. TXT x54914
f. TXT x54915
f. TXT x54916
f. TXT x54917
f. TXT x54918
f. TXT x54919
f. TXT x54920
f. TXT x54921
f. TXT x54922
f. TXT x54923
f. TXT x54924
f. TXT x54925
f. TXT x54926
f. TXT x54927
f. TXT x54928
f. TXT x54929
f. TXT x54930
f. TXT x54931
f. TXT x54932
f. TXT x54933
f. TXT x54934
f. TXT x54935
f. TXT x54936
f. TXT x54937
f. TXT x54938
f. TXT x54939
f. TXT x54940
f. TXT x54941
f. TXT x54942
f. TXT x54943
f. TXT x54944
f. TXT x54945
f. TXT x54946
f. TXT x54947
f. TXT x54948
f. TXT x54949
f. TXT x54950
f. TXT x54951
f. TXT x54952
f. TXT x54953
f. TXT x54954
f. TXT x54955
f. TXT x54956
f. TXT x54957
f. TXT x54958
f. TXT x54959
f. TXT x54960
f. TXT x54961
f. TXT x54962
f. TXT x54963
f. TXT x54964
f. TXT x54965
f. TXT x54966
f. TXT x54967
f. TXT x54968
f. TXT x54969
f. TXT x54970
f. TXT x54971
f. TXT x54972
f. TXT x54973
f. TXT x54974
f. TXT x54975
@ A -ac azxy xa
f. TXT x54977
f. TXT x54978
f. TXT x54979
f. TXT x54980
f. TXT x54981
f. TXT x54982
f. TXT x54983
f. TXT x54984
f. TXT x54985
f. TXT x54986
f. TXT x54987
f. TXT x54988
f. TXT x54989
f. TXT x54990
f. TXT x54991
f. TXT x54992
f. TXT x54993
f. TXT x54994
f. TXT x54995
f. TXT x54996
f. TXT x54997
f. TXT x54998
f. TXT x54999
f. TXT x55000
f. TXT x55001
f. TXT x55002
f. TXT x55003
f. TXT x55004
f. TXT x55005
f. TXT x55006
f. TXT x55007
f. TXT x55008
f. TXT x55009
f. TXT x55010
f. TXT x55011
f. TXT x55012
f. TXT x55013
f. TXT x55014
f. TXT x55015
f. TXT x55016
f. TXT x55017
f. TXT x55018
f. TXT x55019
f. TXT x55020
f. TXT x55021
f. TXT x55022
f. TXT x55023
f. TXT x55024
f. TXT x55025
f. TXT x55026
f. TXT x55027
f. TXT x55028
f. TXT x55029
f. TXT x55030
f. TXT x55031
f. TXT x55032
f. TXT x55033
f. TXT x55034
f. TXT x55035
f. TXT x55036
f. TXT x55037
f. TXT x55038
f. TXT x55039
$ORIGIN x.*y.
f. TXT x55041
f. TXT x55042
f. TXT x55043
f. TXT x55044
f. TXT x55045
f. TXT x55046
f. TXT x55047
f. TXT x55048
f. TXT x55049
f. TXT x55050
f. TXT x55051
f. TXT x55052
f. TXT x55053
f. TXT x55054
f. TXT x55055
f. TXT x55056
f. TXT x55057
f. TXT x55058
f. TXT x55059
f. TXT x55060
f. TXT x55061
f. TXT x55062
f. TXT x55063
f. TXT x55064
f. TXT x55065
f. TXT x55066
f. TXT x55067
f. TXT x55068
f. TXT x55069
f. TXT x55070
f. TXT x55071
f. TXT x55072
f. TXT x55073
f. TXT x55074
f. TXT x55075
f. TXT x55076
f. TXT x55077
f. TXT x55078
f. TXT x55079
f. TXT x55080
f. TXT x55081
f. TXT x55082
f. TXT x55083
f. TXT x55084
f. TXT x55085
f. TXT x55086
f. TXT x55087
f. TXT x55088
f. TXT x55089
f. TXT x55090
f. TXT x55091
f. TXT x55092
f. TXT x55093
f. TXT x55094
f. TXT x55095
f. TXT x55096
f. TXT x55097
f. TXT x55098
f. TXT x55099
f. TXT x55100
f. TXT x55101
f. TXT x55102
f. TXT x55103
 TXT 00xa b baxx
f. TXT x55105
f. TXT x55106
f. TXT x55107
f. TXT x55108
f. TXT x55109
f. TXT x55110
f. TXT x55111
f. TXT x55112
f. TXT x55113
f. TXT x55114
f. TXT x55115
f. TXT x55116
f. TXT x55117
f. TXT x55118
f. TXT x55119
f. TXT x55120
f. TXT x55121
f. TXT x55122
f. TXT x55123
f. TXT x55124
f. TXT x55125
f. TXT x55126
f. TXT x55127
f. TXT x55128
f. TXT x55129
f. TXT x55130
f. TXT x55131
f. TXT x55132
f. TXT x55133
f. TXT x55134
f. TXT x55135
f. TXT x55136
f. TXT x55137
f. TXT x55138
f. TXT x55139
f. TXT x55140
f. TXT x55141
f. TXT x55142
f. TXT x55143
f. TXT x55144
f. TXT x55145
f. TXT x55146
f. TXT x55147
f. TXT x55148
f. TXT x55149
f. TXT x55150
f. TXT x55151
f. TXT x55152
f. TXT x55153
f. TXT x55154
f. TXT x55155
f. TXT x55156
f. TXT x55157
f. TXT x55158
f. TXT x55159
f. TXT x55160
f. TXT x55161
f. TXT x55162
f. TXT x55163
f. TXT x55164
f. TXT x55165
f. TXT x55166
f. TXT x55167
; xc
f. TXT x55169
f. TXT x55170
f. TXT x55171
f. TXT x55172
f. TXT x55173
f. TXT x55174
f. TXT x55175
f. TXT x55176
f. TXT x55177
f. TXT x55178
f. TXT x55179
f. TXT x55180
f. TXT x55181
f. TXT x55182
f. TXT x55183
f. TXT x55184
f. TXT x55185
f. TXT x55186
f. TXT x55187
f. TXT x55188
f. TXT x55189
f. TXT x55190
f. TXT x55191
f. TXT x55192
f. TXT x55193
f. TXT x55194
f. TXT x55195
f. TXT x55196
f. TXT x55197
f. TXT x55198
f. TXT x55199
f. TXT x55200
f. TXT x55201
f. TXT x55202
f. TXT x55203
f. TXT x55204
f. TXT x55205
f. TXT x55206
f. TXT x55207
f. TXT x55208
f. TXT x55209
f. TXT x55210
f. TXT x55211
f. TXT x55212
f. TXT x55213
f. TXT x55214
f. TXT x55215
f. TXT x55216
f. TXT x55217
f. TXT x55218
f. TXT x55219
f. TXT x55220
f. TXT x55221
f. TXT x55222
f. TXT x55223
f. TXT x55224
f. TXT x55225
f. TXT x55226
f. TXT x55227
f. TXT x55228
f. TXT x55229
f. TXT x55230
f. TXT x55231
 NS 0a-
f. TXT x55233
f. TXT x55234
f. TXT x55235
f. TXT x55236
f. TXT x55237
f. TXT x55238
f. TXT x55239
f. TXT x55240
f. TXT x55241
f. TXT x55242
f. TXT x55243
f. TXT x55244
f. TXT x55245
f. TXT x55246
f. TXT x55247
f. TXT x55248
f. TXT x55249
f. TXT x55250
f. TXT x55251
f. TXT x55252
f. TXT x55253
f. TXT x55254
f. TXT x55255
f. TXT x55256
f. TXT x55257
f. TXT x55258
f. TXT x55259
f. TXT x55260
f. TXT x55261
f. TXT x55262
f. TXT x55263
f. TXT x55264
f. TXT x55265
f. TXT x55266
f. TXT x55267
f. TXT x55268
f. TXT x55269
f. TXT x55270
f. TXT x55271
f. TXT x55272
f. TXT x55273
f. TXT x55274
f. TXT x55275
f. TXT x55276
f. TXT x55277
f. TXT x55278
f. TXT x55279
f. TXT x55280
f. TXT x55281
f. TXT x55282
f. TXT x55283
f. TXT x55284
f. TXT x55285
f. TXT x55286
f. TXT x55287
f. TXT x55288
f. TXT x55289
f. TXT x55290
f. TXT x55291
f. TXT x55292
f. TXT x55293
f. TXT x55294
f. TXT x55295
; 0b**
f. TXT x55297
f. TXT x55298
f. TXT x55299
f. TXT x55300
f. TXT x55301
f. TXT x55302
f. TXT x55303
f. TXT x55304
f. TXT x55305
f. TXT x55306
f. TXT x55307
f. TXT x55308
f. TXT x55309
f. TXT x55310
f. TXT x55311
f. TXT x55312
f. TXT x55313
f. TXT x55314
f. TXT x55315
f. TXT x55316
f. TXT x55317
f. TXT x55318
f. TXT x55319
f. TXT x55320
f. TXT x55321
f. TXT x55322
f. TXT x55323
f. TXT x55324
f. TXT x55325
f. TXT x55326
f. TXT x55327
f. TXT x55328
f. TXT x55329
f. TXT x55330
f. TXT x55331
f. TXT x55332
f. TXT x55333
f. TXT x55334
f. TXT x55335
f. TXT x55336
f. TXT x55337
f. TXT x55338
f. TXT x55339
f. TXT x55340
f. TXT x55341
f. TXT x55342
f. TXT x55343
f. TXT x55344
f. TXT x55345
f. TXT x55346
f. TXT x55347
f. TXT x55348
f. TXT x55349
f. TXT x55350
f. TXT x55351
f. TXT x55352
f. TXT x55353
f. TXT x55354
f. TXT x55355
f. TXT x55356
f. TXT x55357
f. TXT x55358
f. TXT x55359
x-*.x*c. TXT 00x -a* b000
f. TXT x55361
f. TXT x55362
f. TXT x55363
f. TXT x55364
f. TXT x55365
f. TXT x55366
f. TXT x55367
f. TXT x55368
f. TXT x55369
f. TXT x55370
f. TXT x55371
f. TXT x55372
f. TXT x55373
f. TXT x55374
f. TXT x55375
f. TXT x55376
f. TXT x55377
f. TXT x55378
f. TXT x55379
f. TXT x55380
f. TXT x55381
f. TXT x55382
f. TXT x55383
f. TXT x55384
f. TXT x55385
f. TXT x55386
f. TXT x55387
f. TXT x55388
f. TXT x55389
f. TXT x55390
f. TXT x55391
f. TXT x55392
f. TXT x55393
f. TXT x55394
f. TXT x55395
f. TXT x55396
f. TXT x55397
f. TXT x55398
f. TXT x55399
f. TXT x55400
f. TXT x55401
f. TXT x55402
f. TXT x55403
f. TXT x55404
f. TXT x55405
f. TXT x55406
f. TXT x55407
f. TXT x55408
f. TXT x55409
f. TXT x55410
f. TXT x55411
f. TXT x55412
f. TXT x55413
f. TXT x55414
f. TXT x55415
f. TXT x55416
f. TXT x55417
f. TXT x55418
f. TXT x55419
f. TXT x55420
f. TXT x55421
f. TXT x55422
f. TXT x55423
 TXT y*b0
f. TXT x55425
f. TXT x55426
f. TXT x55427
f. TXT x55428
f. TXT x55429
f. TXT x55430
f. TXT x55431
f. TXT x55432
f. TXT x55433
f. TXT x55434
f. TXT x55435
f. TXT x55436
f. TXT x55437
f. TXT x55438
f. TXT x55439
f. TXT x55440
f. TXT x55441
f. TXT x55442
f. TXT x55443
f. TXT x55444
f. TXT x55445
f. TXT x55446
f. TXT x55447
f. TXT x55448
f. TXT x55449
f. TXT x55450
f. TXT x55451
f. TXT x55452
f. TXT x55453
f. TXT x55454
f. TXT x55455
f. TXT x55456
f. TXT x55457
f. TXT x55458
f. TXT x55459
f. TXT x55460
f. TXT x55461
f. TXT x55462
f. TXT x55463
f. TXT x55464
f. TXT x55465
f. TXT x55466
f. TXT x55467
f. TXT x55468
f. TXT x55469
f. TXT x55470
f. TXT x55471
f. TXT x55472
f. TXT x55473
f. TXT x55474
f. TXT x55475
f. TXT x55476
f. TXT x55477
f. TXT x55478
f. TXT x55479
f. TXT x55480
f. TXT x55481
f. TXT x55482
f. TXT x55483
f. TXT x55484
f. TXT x55485
f. TXT x55486
f. TXT x55487
$TTL 4294967295
f. TXT x55489
f. TXT x55490
f. TXT x55491
f. TXT x55492
f. TXT x55493
f. TXT x55494
f. TXT x55495
f. TXT x55496
f. TXT x55497
f. TXT x55498
f. TXT x55499
f. TXT x55500
f. TXT x55501
f. TXT x55502
f. TXT x55503
f. TXT x55504
f. TXT x55505
f. TXT x55506
f. TXT x55507
f. TXT x55508
f. TXT x55509
f. TXT x55510
f. TXT x55511
f. TXT x55512
f. TXT x55513
f. TXT x55514
f. TXT x55515
f. TXT x55516
f. TXT x55517
f. TXT x55518
f. TXT x55519
f. TXT x55520
f. TXT x55521
f. TXT x55522
f. TXT x55523
f. TXT x55524
f. TXT x55525
f. TXT x55526
f. TXT x55527
f. TXT x55528
f. TXT x55529
f. TXT x55530
f. TXT x55531
f. TXT x55532
f. TXT x55533
f. TXT x55534
f. TXT x55535
f. TXT x55536
f. TXT x55537
f. TXT x55538
f. TXT x55539
f. TXT x55540
f. TXT x55541
f. TXT x55542
f. TXT x55543
f. TXT x55544
f. TXT x55545
f. TXT x55546
f. TXT x55547
f. TXT x55548
f. TXT x55549
f. TXT x55550
f. TXT x55551
 NS z --aa c0
f. TXT x55553
f. TXT x55554
f. TXT x55555
f. TXT x55556
f. TXT x55557
f. TXT x55558
f. TXT x55559
f. TXT x55560
f. TXT x55561
f. TXT x55562
f. TXT x55563
f. TXT x55564
f. TXT x55565
f. TXT x55566
f. TXT x55567
f. TXT x55568
f. TXT x55569
f. TXT x55570
f. TXT x55571
f. TXT x55572
f. TXT x55573
f. TXT x55574
f. TXT x55575
f. TXT x55576
f. TXT x55577
f. TXT x55578
f. TXT x55579
f. TXT x55580
f. TXT x55581
f. TXT x55582
f. TXT x55583
f. TXT x55584
f. TXT x55585
f. TXT x55586
f. TXT x55587
f. TXT x55588
f. TXT x55589
f. TXT x55590
f. TXT x55591
f. TXT x55592
f. TXT x55593
f. TXT x55594
f. TXT x55595
f. TXT x55596
f. TXT x55597
f. TXT x55598
f. TXT x55599
f. TXT x55600
f. TXT x55601
f. TXT x55602
f. TXT x55603
f. TXT x55604
f. TXT x55605
f. TXT x55606
f. TXT x55607
f. TXT x55608
f. TXT x55609
f. TXT x55610
f. TXT x55611
f. TXT x55612
f. TXT x55613
f. TXT x55614
f. TXT x55615
 A -c c--y
f. TXT x55617
f. TXT x55618
f. TXT x55619
f. TXT x55620
f. TXT x55621
f. TXT x55622
f. TXT x55623
f. TXT x55624
f. TXT x55625
f. TXT x55626
f. TXT x55627
f. TXT x55628
f. TXT x55629
f. TXT x55630
f. TXT x55631
f. TXT x55632
f. TXT x55633
f. TXT x55634
f. TXT x55635
f. TXT x55636
f. TXT x55637
f. TXT x55638
f. TXT x55639
f. TXT x55640
f. TXT x55641
f. TXT x55642
f. TXT x55643
f. TXT x55644
f. TXT x55645
f. TXT x55646
f. TXT x55647
f. TXT x55648
f. TXT x55649
f. TXT x55650
f. TXT x55651
f. TXT x55652
f. TXT x55653
f. TXT x55654
f. TXT x55655
f. TXT x55656
f. TXT x55657
f. TXT x55658
f. TXT x55659
f. TXT x55660
f. TXT x55661
f. TXT x55662
f. TXT x55663
f. TXT x55664
f. TXT x55665
f. TXT x55666
f. TXT x55667
f. TXT x55668
f. TXT x55669
f. TXT x55670
f. TXT x55671
f. TXT x55672
f. TXT x55673
f. TXT x55674
f. TXT x55675
f. TXT x55676
f. TXT x55677
f. TXT x55678
f. TXT x55679
$ORIGIN yxy-.
f. TXT x55681
f. TXT x55682
f. TXT x55683
f. TXT x55684
f. TXT x55685
f. TXT x55686
f. TXT x55687
f. TXT x55688
f. TXT x55689
f. TXT x55690
f. TXT x55691
f. TXT x55692
f. TXT x55693
f. TXT x55694
f. TXT x55695
f. TXT x55696
f. TXT x55697
f. TXT x55698
f. TXT x55699
f. TXT x55700
f. TXT x55701
f. TXT x55702
f. TXT x55703
f. TXT x55704
f. TXT x55705
f. TXT x55706
f. TXT x55707
f. TXT x55708
f. TXT x55709
f. TXT x55710
f. TXT x55711
f. TXT x55712
f. TXT x55713
f. TXT x55714
f. TXT x55715
f. TXT x55716
f. TXT x55717
f. TXT x55718
f. TXT x55719
f. TXT x55720
f. TXT x55721
f. TXT x55722
f. TXT x55723
f. TXT x55724
f. TXT x55725
f. TXT x55726
f. TXT x55727
f. TXT x55728
f. TXT x55729
f. TXT x55730
f. TXT x55731
f. TXT x55732
f. TXT x55733
f. TXT x55734
f. TXT x55735
f. TXT x55736
f. TXT x55737
f. TXT x55738
f. TXT x55739
f. TXT x55740
f. TXT x55741
f. TXT x55742
f. TXT x55743
$TTL 54797
f. TXT x55745
f. TXT x55746
f. TXT x55747
f. TXT x55748
f. TXT x55749
f. TXT x55750
f. TXT x55751
f. TXT x55752
f. TXT x55753
f. TXT x55754
f. TXT x55755
f. TXT x55756
f. TXT x55757
f. TXT x55758
f. TXT x55759
f. TXT x55760
f. TXT x55761
f. TXT x55762
f. TXT x55763
f. TXT x55764
f. TXT x55765
f. TXT x55766
f. TXT x55767
f. TXT x55768
f. TXT x55769
f. TXT x55770
f. TXT x55771
f. TXT x55772
f. TXT x55773
f. TXT x55774
f. TXT x55775
f. TXT x55776
f. TXT x55777
f. TXT x55778
f. TXT x55779
f. TXT x55780
f. TXT x55781
f. TXT x55782
f. TXT x55783
f. TXT x55784
f. TXT x55785
f. TXT x55786
f. TXT x55787
f. TXT x55788
f. TXT x55789
f. TXT x55790
f. TXT x55791
f. TXT x55792
f. TXT x55793
f. TXT x55794
f. TXT x55795
f. TXT x55796
f. TXT x55797
f. TXT x55798
f. TXT x55799
f. TXT x55800
f. TXT x55801
f. TXT x55802
f. TXT x55803
f. TXT x55804
f. TXT x55805
f. TXT x55806
f. TXT x55807
aaa A -ab- c *
f. TXT x55809
f. TXT x55810
f. TXT x55811
f. TXT x55812
f. TXT x55813
f. TXT x55814
f. TXT x55815
f. TXT x55816
f. TXT x55817
f. TXT x55818
f. TXT x55819
f. TXT x55820
f. TXT x55821
f. TXT x55822
f. TXT x55823
f. TXT x55824
f. TXT x55825
f. TXT x55826
f. TXT x55827
f. TXT x55828
f. TXT x55829
f. TXT x55830
f. TXT x55831
f. TXT x55832
f. TXT x55833
f. TXT x55834
f. TXT x55835
f. TXT x55836
f. TXT x55837
f. TXT x55838
f. TXT x55839
f. TXT x55840
f. TXT x55841
f. TXT x55842
f. TXT x55843
f. TXT x55844
f. TXT x55845
f. TXT x55846
f. TXT x55847
f. TXT x55848
f. TXT x55849
f. TXT x55850
f. TXT x55851
f. TXT x55852
f. TXT x55853
f. TXT x55854
f. TXT x55855
f. TXT x55856
f. TXT x55857
f. TXT x55858
f. TXT x55859
f. TXT x55860
f. TXT x55861
f. TXT x55862
f. TXT x55863
f. TXT x55864
f. TXT x55865
f. TXT x55866
f. TXT x55867
f. TXT x55868
f. TXT x55869
f. TXT x55870
f. TXT x55871
$ORIGIN ay.
f. TXT x55873
f. TXT x55874
f. TXT x55875
f. TXT x55876
f. TXT x55877
f. TXT x55878
f. TXT x55879
f. TXT x55880
f. TXT x55881
f. TXT x55882
f. TXT x55883
f. TXT x55884
f. TXT x55885
f. TXT x55886
f. TXT x55887
f. TXT x55888
f. TXT x55889
f. TXT x55890
f. TXT x55891
f. TXT x55892
f. TXT x55893
f. TXT x55894
f. TXT x55895
f. TXT x55896
f. TXT x55897
f. TXT x55898
f. TXT x55899
f. TXT x55900
f. TXT x55901
f. TXT x55902
f. TXT x55903
f. TXT x55904
f. TXT x55905
f. TXT x55906
f. TXT x55907
f. TXT x55908
f. TXT x55909
f. TXT x55910
f. TXT x55911
f. TXT x55912
f. TXT x55913
f. TXT x55914
f. TXT x55915
f. TXT x55916
f. TXT x55917
f. TXT x55918
f. TXT x55919
f. TXT x55920
f. TXT x55921
f. TXT x55922
f. TXT x55923
f. TXT x55924
f. TXT x55925
f. TXT x55926
f. TXT x55927
f. TXT x55928
f. TXT x55929
f. TXT x55930
f. TXT x55931
f. TXT x55932
f. TXT x55933
f. TXT x55934
f. TXT x55935
0.b0-. NS z* yxxx 00cb
f. TXT x55937
f. TXT x55938
f. TXT x55939
f. TXT x55940
f. TXT x55941
f. TXT x55942
f. TXT x55943
f. TXT x55944
f. TXT x55945
f. TXT x55946
f. TXT x55947
f. TXT x55948
f. TXT x55949
f. TXT x55950
f. TXT x55951
f. TXT x55952
f. TXT x55953
f. TXT x55954
f. TXT x55955
f. TXT x55956
f. TXT x55957
f. TXT x55958
f. TXT x55959
f. TXT x55960
f. TXT x55961
f. TXT x55962
f. TXT x55963
f. TXT x55964
f. TXT x55965
f. TXT x55966
f. TXT x55967
f. TXT x55968
f. TXT x55969
f. TXT x55970
f. TXT x55971
f. TXT x55972
f. TXT x55973
f. TXT x55974
f. TXT x55975
f. TXT x55976
f. TXT x55977
f. TXT x55978
f. TXT x55979
f. TXT x55980
f. TXT x55981
f. TXT x55982
f. TXT x55983
f. TXT x55984
f. TXT x55985
f. TXT x55986
f. TXT x55987
f. TXT x55988
f. TXT x55989
f. TXT x55990
f. TXT x55991
f. TXT x55992
f. TXT x55993
f. TXT x55994
f. TXT x55995
f. TXT x55996
f. TXT x55997
f. TXT x55998
f. TXT x55999
$ORIGIN accy.
f. TXT x56001
f. TXT x56002
f. TXT x56003
f. TXT x56004
f. TXT x56005
f. TXT x56006
f. TXT x56007
f. TXT x56008
f. TXT x56009
f. TXT x56010
f. TXT x56011
f. TXT x56012
f. TXT x56013
f. TXT x56014
f. TXT x56015
f. TXT x56016
f. TXT x56017
f. TXT x56018
f. TXT x56019
f. TXT x56020
f. TXT x56021
f. TXT x56022
f. TXT x56023
f. TXT x56024
f. TXT x56025
f. TXT x56026
f. TXT x56027
f. TXT x56028
f. TXT x56029
f. TXT x56030
f. TXT x56031
f. TXT x56032
f. TXT x56033
f. TXT x56034
f. TXT x56035
f. TXT x56036
f. TXT x56037
f. TXT x56038
f. TXT x56039
f. TXT x56040
f. TXT x56041
f. TXT x56042
f. TXT x56043
f. TXT x56044
f. TXT x56045
f. TXT x56046
f. TXT x56047
f. TXT x56048
f. TXT x56049
f. TXT x56050
f. TXT x56051
f. TXT x56052
f. TXT x56053
f. TXT x56054
f. TXT x56055
f. TXT x56056
f. TXT x56057
f. TXT x56058
f. TXT x56059
f. TXT x56060
f. TXT x56061
f. TXT x56062
f. TXT x56063
 TXT y
f. TXT x56065
f. TXT x56066
f. TXT x56067
f. TXT x56068
f. TXT x56069
f. TXT x56070
f. TXT x56071
f. TXT x56072
f. TXT x56073
f. TXT x56074
f. TXT x56075
f. TXT x56076
f. TXT x56077
f. TXT x56078
f. TXT x56079
f. TXT x56080
f. TXT x56081
f. TXT x56082
f. TXT x56083
f. TXT x56084
f. TXT x56085
f. TXT x56086
f. TXT x56087
f. TXT x56088
f. TXT x56089
f. TXT x56090
f. TXT x56091
f. TXT x56092
f. TXT x56093
f. TXT x56094
f. TXT x56095
f. TXT x56096
f. TXT x56097
f. TXT x56098
f. TXT x56099
f. TXT x56100
f. TXT x56101
f. TXT x56102
f. TXT x56103
f. TXT x56104
f. TXT x56105
f. TXT x56106
f. TXT x56107
f. TXT x56108
f. TXT x56109
f. TXT x56110
f. TXT x56111
f. TXT x56112
f. TXT x56113
f. TXT x56114
f. TXT x56115
f. TXT x56116
f. TXT x56117
f. TXT x56118
f. TXT x56119
f. TXT x56120
f. TXT x56121
f. TXT x56122
f. TXT x56123
f. TXT x56124
f. TXT x56125
f. TXT x56126
f. TXT x56127
$ORIGIN c.-c.
f. TXT x56129
f. TXT x56130
f. TXT x56131
f. TXT x56132
f. TXT x56133
f. TXT x56134
f. TXT x56135
f. TXT x56136
f. TXT x56137
f. TXT x56138
f. TXT x56139
f. TXT x56140
f. TXT x56141
f. TXT x56142
f. TXT x56143
f. TXT x56144
f. TXT x56145
f. TXT x56146
f. TXT x56147
f. TXT x56148
f. TXT x56149
f. TXT x56150
f. TXT x56151
f. TXT x56152
f. TXT x56153
f. TXT x56154
f. TXT x56155
f. TXT x56156
f. TXT x56157
f. TXT x56158
f. TXT x56159
f. TXT x56160
f. TXT x56161
f. TXT x56162
f. TXT x56163
f. TXT x56164
f. TXT x56165
f. TXT x56166
f. TXT x56167
f. TXT x56168
f. TXT x56169
f. TXT x56170
f. TXT x56171
f. TXT x56172
f. TXT x56173
f. TXT x56174
f. TXT x56175
f. TXT x56176
f. TXT x56177
f. TXT x56178
f. TXT x56179
f. TXT x56180
f. TXT x56181
f. TXT x56182
f. TXT x56183
f. TXT x56184
f. TXT x56185
f. TXT x56186
f. TXT x56187
f. TXT x56188
f. TXT x56189
f. TXT x56190
f. TXT x56191
0xb- TXT b
f. TXT x56193
f. TXT x56194
f. TXT x56195
f. TXT x56196
f. TXT x56197
f. TXT x56198
f. TXT x56199
f. TXT x56200
f. TXT x56201
f. TXT x56202
f. TXT x56203
f. TXT x56204
f. TXT x56205
f. TXT x56206
f. TXT x56207
f. TXT x56208
f. TXT x56209
f. TXT x56210
f. TXT x56211
f. TXT x56212
f. TXT x56213
f. TXT x56214
f. TXT x56215
f. TXT x56216
f. TXT x56217
f. TXT x56218
f. TXT x56219
f. TXT x56220
f. TXT x56221
f. TXT x56222
f. TXT x56223
f. TXT x56224
f. TXT x56225
f. TXT x56226
f. TXT x56227
f. TXT x56228
f. TXT x56229
f. TXT x56230
f. TXT x56231
f. TXT x56232
f. TXT x56233
f. TXT x56234
f. TXT x56235
f. TXT x56236
f. TXT x56237
f. TXT x56238
f. TXT x56239
f. TXT x56240
f. TXT x56241
f. TXT x56242
f. TXT x56243
f. TXT x56244
f. TXT x56245
f. TXT x56246
f. TXT x56247
f. TXT x56248
f. TXT x56249
f. TXT x56250
f. TXT x56251
f. TXT x56252
f. TXT x56253
f. TXT x56254
f. TXT x56255
$TTL 3240060338
f. TXT x56257
f. TXT x56258
f. TXT x56259
f. TXT x56260
f. TXT x56261
f. TXT x56262
f. TXT x56263
f. TXT x56264
f. TXT x56265
f. TXT x56266
f. TXT x56267
f. TXT x56268
f. TXT x56269
f. TXT x56270
f. TXT x56271
f. TXT x56272
f. TXT x56273
f. TXT x56274
f. TXT x56275
f. TXT x56276
f. TXT x56277
f. TXT x56278
f. TXT x56279
f. TXT x56280
f. TXT x56281
f. TXT x56282
f. TXT x56283
f. TXT x56284
f. TXT x56285
f. TXT x56286
f. TXT x56287
f. TXT x56288
f. TXT x56289
f. TXT x56290
f. TXT x56291
f. TXT x56292
f. TXT x56293
f. TXT x56294
f. TXT x56295
f. TXT x56296
f. TXT x56297
f. TXT x56298
f. TXT x56299
f. TXT x56300
f. TXT x56301
f. TXT x56302
f. TXT x56303
f. TXT x56304
f. TXT x56305
f. TXT x56306
f. TXT x56307
f. TXT x56308
f. TXT x56309
f. TXT x56310
f. TXT x56311
f. TXT x56312
f. TXT x56313
f. TXT x56314
f. TXT x56315
f. TXT x56316
f. TXT x56317
f. TXT x56318
f. TXT x56319
@ NS zbyx a*0x -*a0
f. TXT x56321
f. TXT x56322
f. TXT x56323
f. TXT x56324
f. TXT x56325
f. TXT x56326
f. TXT x56327
f. TXT x56328
f. TXT x56329
f. TXT x56330
f. TXT x56331
f. TXT x56332
f. TXT x56333
f. TXT x56334
f. TXT x56335
f. TXT x56336
f. TXT x56337
f. TXT x56338
f. TXT x56339
f. TXT x56340
f. TXT x56341
f. TXT x56342
f. TXT x56343
f. TXT x56344
f. TXT x56345
f. TXT x56346
f. TXT x56347
f. TXT x56348
f. TXT x56349
f. TXT x56350
f. TXT x56351
f. TXT x56352
f. TXT x56353
f. TXT x56354
f. TXT x56355
f. TXT x56356
f. TXT x56357
f. TXT x56358
f. TXT x56359
f. TXT x56360
f. TXT x56361
f. TXT x56362
f. TXT x56363
f. TXT x56364
f. TXT x56365
f. TXT x56366
f. TXT x56367
f. TXT x56368
f. TXT x56369
f. TXT x56370
f. TXT x56371
f. TXT x56372
f. TXT x56373
f. TXT x56374
f. TXT x56375
f. TXT x56376
f. TXT x56377
f. TXT x56378
f. TXT x56379
f. TXT x56380
f. TXT x56381
f. TXT x56382
f. TXT x56383
y.c0-x. A aa *zxb
f. TXT x56385
f. TXT x56386
f. TXT x56387
f. TXT x56388
f. TXT x56389
f. TXT x56390
f. TXT x56391
f. TXT x56392
f. TXT x56393
f. TXT x56394
f. TXT x56395
f. TXT x56396
f. TXT x56397
f. TXT x56398
f. TXT x56399
f. TXT x56400
f. TXT x56401
f. TXT x56402
f. TXT x56403
f. TXT x56404
f. TXT x56405
f. TXT x56406
f. TXT x56407
f. TXT x56408
f. TXT x56409
f. TXT x56410
f. TXT x56411
f. TXT x56412
f. TXT x56413
f. TXT x56414
f. TXT x56415
f. TXT x56416
f. TXT x56417
f. TXT x56418
f. TXT x56419
f. TXT x56420
f. TXT x56421
f. TXT x56422
f. TXT x56423
f. TXT x56424
f. TXT x56425
f. TXT x56426
f. TXT x56427
f. TXT x56428
f. TXT x56429
f. TXT x56430
f. TXT x56431
f. TXT x56432
f. TXT x56433
f. TXT x56434
f. TXT x56435
f. TXT x56436
f. TXT x56437
f. TXT x56438
f. TXT x56439
f. TXT x56440
f. TXT x56441
f. TXT x56442
f. TXT x56443
f. TXT x56444
f. TXT x56445
f. TXT x56446
f. TXT x56447
a0 A cy zyz- z-
f. TXT x56449
f. TXT x56450
f. TXT x56451
f. TXT x56452
f. TXT x56453
f. TXT x56454
f. TXT x56455
f. TXT x56456
f. TXT x56457
f. TXT x56458
f. TXT x56459
f. TXT x56460
f. TXT x56461
f. TXT x56462
f. TXT x56463
f. TXT x56464
f. TXT x56465
f. TXT x56466
f. TXT x56467
f. TXT x56468
f. TXT x56469
f. TXT x56470
f. TXT x56471
f. TXT x56472
f. TXT x56473
f. TXT x56474
f. TXT x56475
f. TXT x56476
f. TXT x56477
f. TXT x56478
f. TXT x56479
f. TXT x56480
f. TXT x56481
f. TXT x56482
f. TXT x56483
f. TXT x56484
f. TXT x56485
f. TXT x56486
f. TXT x56487
f. TXT x56488
f. TXT x56489
f. TXT x56490
f. TXT x56491
f. TXT x56492
f. TXT x56493
f. TXT x56494
f. TXT x56495
f. TXT x56496
f. TXT x56497
f. TXT x56498
f. TXT x56499
f. TXT x56500
f. TXT x56501
f. TXT x56502
f. TXT x56503
f. TXT x56504
f. TXT x56505
f. TXT x56506
f. TXT x56507
f. TXT x56508
f. TXT x56509
f. TXT x56510
f. TXT x56511
 TXT aa
f. TXT x56513
f. TXT x56514
f. TXT x56515
f. TXT x56516
f. TXT x56517
f. TXT x56518
f. TXT x56519
f. TXT x56520
f. TXT x56521
f. TXT x56522
f. TXT x56523
f. TXT x56524
f. TXT x56525
f. TXT x56526
f. TXT x56527
f. TXT x56528
f. TXT x56529
f. TXT x56530
f. TXT x56531
f. TXT x56532
f. TXT x56533
f. TXT x56534
f. TXT x56535
f. TXT x56536
f. TXT x56537
f. TXT x56538
f. TXT x56539
f. TXT x56540
f. TXT x56541
f. TXT x56542
f. TXT x56543
f. TXT x56544
f. TXT x56545
f. TXT x56546
f. TXT x56547
f. TXT x56548
f. TXT x56549
f. TXT x56550
f. TXT x56551
f. TXT x56552
f. TXT x56553
f. TXT x56554
f. TXT x56555
f. TXT x56556
f. TXT x56557
f. TXT x56558
f. TXT x56559
f. TXT x56560
f. TXT x56561
f. TXT x56562
f. TXT x56563
f. TXT x56564
f. TXT x56565
f. TXT x56566
f. TXT x56567
f. TXT x56568
f. TXT x56569
f. TXT x56570
f. TXT x56571
f. TXT x56572
f. TXT x56573
f. TXT x56574
f. TXT x56575
; a
f. TXT x56577
f. TXT x56578
f. TXT x56579
f. TXT x56580
f. TXT x56581
f. TXT x56582
f. TXT x56583
f. TXT x56584
f. TXT x56585
f. TXT x56586
f. TXT x56587
f. TXT x56588
f. TXT x56589
f. TXT x56590
f. TXT x56591
f. TXT x56592
f. TXT x56593
f. TXT x56594
f. TXT x56595
f. TXT x56596
f. TXT x56597
f. TXT x56598
f. TXT x56599
f. TXT x56600
f. TXT x56601
f. TXT x56602
f. TXT x56603
f. TXT x56604
f. TXT x56605
f. TXT x56606
f. TXT x56607
f. TXT x56608
f. TXT x56609
f. TXT x56610
f. TXT x56611
f. TXT x56612
f. TXT x56613
f. TXT x56614
f. TXT x56615
f. TXT x56616
f. TXT x56617
f. TXT x56618
f. TXT x56619
f. TXT x56620
f. TXT x56621
f. TXT x56622
f. TXT x56623
f. TXT x56624
f. TXT x56625
f. TXT x56626
f. TXT x56627
f. TXT x56628
f. TXT x56629
f. TXT x56630
f. TXT x56631
f. TXT x56632
f. TXT x56633
f. TXT x56634
f. TXT x56635
f. TXT x56636
f. TXT x56637
f. TXT x56638
f. TXT x56639
a0*.yba. TXT x--0 x za
f. TXT x56641
f. TXT x56642
f. TXT x56643
f. TXT x56644
f. TXT x56645
f. TXT x56646
f. TXT x56647
f. TXT x56648
f. TXT x56649
f. TXT x56650
f. TXT x56651
f. TXT x56652
f. TXT x56653
f. TXT x56654
f. TXT x56655
f. TXT x56656
f. TXT x56657
f. TXT x56658
f. TXT x56659
f. TXT x56660
f. TXT x56661
f. TXT x56662
f. TXT x56663
f. TXT x56664
f. TXT x56665
f. TXT x56666
f. TXT x56667
f. TXT x56668
f. TXT x56669
f. TXT x56670
f. TXT x56671
f. TXT x56672
f. TXT x56673
f. TXT x56674
f. TXT x56675
f. TXT x56676
f. TXT x56677
f. TXT x56678
f. TXT x56679
f. TXT x56680
f. TXT x56681
f. TXT x56682
f. TXT x56683
f. TXT x56684
f. TXT x56685
f. TXT x56686
f. TXT x56687
f. TXT x56688
f. TXT x56689
f. TXT x56690
f. TXT x56691
f. TXT x56692
f. TXT x56693
f. TXT x56694
f. TXT x56695
f. TXT x56696
f. TXT x56697
f. TXT x56698
f. TXT x56699
f. TXT x56700
f. TXT x56701
f. TXT x56702
f. TXT x56703
; x*-
f. TXT x56705
f. TXT x56706
f. TXT x56707
f. TXT x56708
f. TXT x56709
f. TXT x56710
f. TXT x56711
f. TXT x56712
f. TXT x56713
f. TXT x56714
f. TXT x56715
f. TXT x56716
f. TXT x56717
f. TXT x56718
f. TXT x56719
f. TXT x56720
f. TXT x56721
f. TXT x56722
f. TXT x56723
f. TXT x56724
f. TXT x56725
f. TXT x56726
f. TXT x56727
f. TXT x56728
f. TXT x56729
f. TXT x56730
f. TXT x56731
f. TXT x56732
f. TXT x56733
f. TXT x56734
f. TXT x56735
f. TXT x56736
f. TXT x56737
f. TXT x56738
f. TXT x56739
f. TXT x56740
f. TXT x56741
f. TXT x56742
f. TXT x56743
f. TXT x56744
f. TXT x56745
f. TXT x56746
f. TXT x56747
f. TXT x56748
f. TXT x56749
f. TXT x56750
f. TXT x56751
f. TXT x56752
f. TXT x56753
f. TXT x56754
f. TXT x56755
f. TXT x56756
f. TXT x56757
f. TXT x56758
f. TXT x56759
f. TXT x56760
f. TXT x56761
f. TXT x56762
f. TXT x56763
f. TXT x56764
f. TXT x56765
f. TXT x56766
f. TXT x56767
cb TXT z y
f. TXT x56769
f. TXT x56770
f. TXT x56771
f. TXT x56772
f. TXT x56773
f. TXT x56774
f. TXT x56775
f. TXT x56776
f. TXT x56777
f. TXT x56778
f. TXT x56779
f. TXT x56780
f. TXT x56781
f. TXT x56782
f. TXT x56783
f. TXT x56784
f. TXT x56785
f. TXT x56786
f. TXT x56787
f. TXT x56788
f. TXT x56789
f. TXT x56790
f. TXT x56791
f. TXT x56792
f. TXT x56793
f. TXT x56794
f. TXT x56795
f. TXT x56796
f. TXT x56797
f. TXT x56798
f. TXT x56799
f. TXT x56800
f. TXT x56801
f. TXT x56802
f. TXT x56803
f. TXT x56804
f. TXT x56805
f. TXT x56806
f. TXT x56807
f. TXT x56808
f. TXT x56809
f. TXT x56810
f. TXT x56811
f. TXT x56812
f. TXT x56813
f. TXT x56814
f. TXT x56815
f. TXT x56816
f. TXT x56817
f. TXT x56818
f. TXT x56819
f. TXT x56820
f. TXT x56821
f. TXT x56822
f. TXT x56823
f. TXT x56824
f. TXT x56825
f. TXT x56826
f. TXT x56827
f. TXT x56828
f. TXT x56829
f. TXT x56830
f. TXT x56831
@ A a*ab c*ya
f. TXT x56833
f. TXT x56834
f. TXT x56835
f. TXT x56836
f. TXT x56837
f. TXT x56838
f. TXT x56839
f. TXT x56840
f. TXT x56841
f. TXT x56842
f. TXT x56843
f. TXT x56844
f. TXT x56845
f. TXT x56846
f. TXT x56847
f. TXT x56848
f. TXT x56849
f. TXT x56850
f. TXT x56851
f. TXT x56852
f. TXT x56853
f. TXT x56854
f. TXT x56855
f. TXT x56856
f. TXT x56857
f. TXT x56858
f. TXT x56859
f. TXT x56860
f. TXT x56861
f. TXT x56862
f. TXT x56863
f. TXT x56864
f. TXT x56865
f. TXT x56866
f. TXT x56867
f. TXT x56868
f. TXT x56869
f. TXT x56870
f. TXT x56871
f. TXT x56872
f. TXT x56873
f. TXT x56874
f. TXT x56875
f. TXT x56876
f. TXT x56877
f. TXT x56878
f. TXT x56879
f. TXT x56880
f. TXT x56881
f. TXT x56882
f. TXT x56883
f. TXT x56884
f. TXT x56885
f. TXT x56886
f. TXT x56887
f. TXT x56888
f. TXT x56889
f. TXT x56890
f. TXT x56891
f. TXT x56892
f. TXT x56893
f. TXT x56894
f. TXT x56895
 NS b c
f. TXT x56897
f. TXT x56898
f. TXT x56899
f. TXT x56900
f. TXT x56901
f. TXT x56902
f. TXT x56903
f. TXT x56904
f. TXT x56905
f. TXT x56906
f. TXT x56907
f. TXT x56908
f. TXT x56909
f. TXT x56910
f. TXT x56911
f. TXT x56912
f. TXT x56913
f. TXT x56914
f. TXT x56915
f. TXT x56916
f. TXT x56917
f. TXT x56918
f. TXT x56919
f. TXT x56920
f. TXT x56921
f. TXT x56922
f. TXT x56923
f. TXT x56924
f. TXT x56925
f. TXT x56926
f. TXT x56927
f. TXT x56928
f. TXT x56929
f. TXT x56930
f. TXT x56931
f. TXT x56932
f. TXT x56933
f. TXT x56934
f. TXT x56935
f. TXT x56936
f. TXT x56937
f. TXT x56938
f. TXT x56939
f. TXT x56940
f. TXT x56941
f. TXT x56942
f. TXT x56943
f. TXT x56944
f. TXT x56945
f. TXT x56946
f. TXT x56947
f. TXT x56948
f. TXT x56949
f. TXT x56950
f. TXT x56951
f. TXT x56952
f. TXT x56953
f. TXT x56954
f. TXT x56955
f. TXT x56956
f. TXT x56957
f. TXT x56958
f. TXT x56959
*y.z. TXT 0 *yx
f. TXT x56961
f. TXT x56962
f. TXT x56963
f. TXT x56964
f. TXT x56965
f. TXT x56966
f. TXT x56967
f. TXT x56968
f. TXT x56969
f. TXT x56970
f. TXT x56971
f. TXT x56972
f. TXT x56973
f. TXT x56974
f. TXT x56975
f. TXT x56976
f. TXT x56977
f. TXT x56978
f. TXT x56979
f. TXT x56980
f. TXT x56981
f. TXT x56982
f. TXT x56983
f. TXT x56984
f. TXT x56985
f. TXT x56986
f. TXT x56987
f. TXT x56988
f. TXT x56989
f. TXT x56990
f. TXT x56991
f. TXT x56992
f. TXT x56993
f. TXT x56994
f. TXT x56995
f. TXT x56996
f. TXT x56997
f. TXT x56998
f. TXT x56999
f. TXT x57000
f. TXT x57001
f. TXT x57002
f. TXT x57003
f. TXT x57004
f. TXT x57005
f. TXT x57006
f. TXT x57007
f. TXT x57008
f. TXT x57009
f. TXT x57010
f. TXT x57011
f. TXT x57012
f. TXT x57013
f. TXT x57014
f. TXT x57015
f. TXT x57016
f. TXT x57017
f. TXT x57018
f. TXT x57019
f. TXT x57020
f. TXT x57021
f. TXT x57022
f. TXT x57023
$ORIGIN c-zx.-.
f. TXT x57025
f. TXT x57026
f. TXT x57027
f. TXT x57028
f. TXT x57029
f. TXT x57030
f. TXT x57031
f. TXT x57032
f. TXT x57033
f. TXT x57034
f. TXT x57035
f. TXT x57036
f. TXT x57037
f. TXT x57038
f. TXT x57039
f. TXT x57040
f. TXT x57041
f. TXT x57042
f. TXT x57043
f. TXT x57044
f. TXT x57045
f. TXT x57046
f. TXT x57047
f. TXT x57048
f. TXT x57049
f. TXT x57050
f. TXT x57051
f. TXT x57052
f. TXT x57053
f. TXT x57054
f. TXT x57055
f. TXT x57056
f. TXT x57057
f. TXT x57058
f. TXT x57059
f. TXT x57060
f. TXT x57061
f. TXT x57062
f. TXT x57063
f. TXT x57064
f. TXT x57065
f. TXT x57066
f. TXT x57067
f. TXT x57068
f. TXT x57069
f. TXT x57070
f. TXT x57071
f. TXT x57072
f. TXT x57073
f. TXT x57074
f. TXT x57075
f. TXT x57076
f. TXT x57077
f. TXT x57078
f. TXT x57079
f. TXT x57080
f. TXT x57081
f. TXT x57082
f. TXT x57083
f. TXT x57084
f. TXT x57085
f. TXT x57086
f. TXT x57087
$ORIGIN *y-0.
f. TXT x57089
f. TXT x57090
f. TXT x57091
f. TXT x57092
f. TXT x57093
f. TXT x57094
f. TXT x57095
f. TXT x57096
f. TXT x57097
f. TXT x57098
f. TXT x57099
f. TXT x57100
f. TXT x57101
f. TXT x57102
f. TXT x57103
f. TXT x57104
f. TXT x57105
f. TXT x57106
f. TXT x57107
f. TXT x57108
f. TXT x57109
f. TXT x57110
f. TXT x57111
f. TXT x57112
f. TXT x57113
f. TXT x57114
f. TXT x57115
f. TXT x57116
f. TXT x57117
f. TXT x57118
f. TXT x57119
f. TXT x57120
f. TXT x57121
f. TXT x57122
f. TXT x57123
f. TXT x57124
f. TXT x57125
f. TXT x57126
f. TXT x57127
f. TXT x57128
f. TXT x57129
f. TXT x57130
f. TXT x57131
f. TXT x57132
f. TXT x57133
f. TXT x57134
f. TXT x57135
f. TXT x57136
f. TXT x57137
f. TXT x57138
f. TXT x57139
f. TXT x57140
f. TXT x57141
f. TXT x57142
f. TXT x57143
f. TXT x57144
f. TXT x57145
f. TXT x57146
f. TXT x57147
f. TXT x57148
f. TXT x57149
f. TXT x57150
f. TXT x57151
@ A xb z-
f. TXT x57153
f. TXT x57154
f. TXT x57155
f. TXT x57156
f. TXT x57157
f. TXT x57158
f. TXT x57159
f. TXT x57160
f. TXT x57161
f. TXT x57162
f. TXT x57163
f. TXT x57164
f. TXT x57165
f. TXT x57166
f. TXT x57167
f. TXT x57168
f. TXT x57169
f. TXT x57170
f. TXT x57171
f. TXT x57172
f. TXT x57173
f. TXT x57174
f. TXT x57175
f. TXT x57176
f. TXT x57177
f. TXT x57178
f. TXT x57179
f. TXT x57180
f. TXT x57181
f. TXT x57182
f. TXT x57183
f. TXT x57184
f. TXT x57185
f. TXT x57186
f. TXT x57187
f. TXT x57188
f. TXT x57189
f. TXT x57190
f. TXT x57191
f. TXT x57192
f. TXT x57193
f. TXT x57194
f. TXT x57195
f. TXT x57196
f. TXT x57197
f. TXT x57198
f. TXT x57199
f. TXT x57200
f. TXT x57201
f. TXT x57202
f. TXT x57203
f. TXT x57204
f. TXT x57205
f. TXT x57206
f. TXT x57207
f. TXT x57208
f. TXT x57209
f. TXT x57210
f. TXT x57211
f. TXT x57212
f. TXT x57213
f. TXT x57214
f. TXT x57215
@ NS --
f. TXT x57217
f. TXT x57218
f. TXT x57219
f. TXT x57220
f. TXT x57221
f. TXT x57222
f. TXT x57223
f. TXT x57224
f. TXT x57225
f. TXT x57226
f. TXT x57227
f. TXT x57228
f. TXT x57229
f. TXT x57230
f. TXT x57231
f. TXT x57232
f. TXT x57233
f. TXT x57234
f. TXT x57235
f. TXT x57236
f. TXT x57237
f. TXT x57238
f. TXT x57239
f. TXT x57240
f. TXT x57241
f. TXT x57242
f. TXT x57243
f. TXT x57244
f. TXT x57245
f. TXT x57246
f. TXT x57247
f. TXT x57248
f. TXT x57249
f. TXT x57250
f. TXT x57251
f. TXT x57252
f. TXT x57253
f. TXT x57254
f. TXT x57255
f. TXT x57256
f. TXT x57257
f. TXT x57258
f. TXT x57259
f. TXT x57260
f. TXT x57261
f. TXT x57262
f. TXT x57263
f. TXT x57264
f. TXT x57265
f. TXT x57266
f. TXT x57267
f. TXT x57268
f. TXT x57269
f. TXT x57270
f. TXT x57271
f. TXT x57272
f. TXT x57273
f. TXT x57274
f. TXT x57275
f. TXT x57276
f. TXT x57277
f. TXT x57278
f. TXT x57279
ay-b.yx-. A zx* 0c xz
f. TXT x57281
f. TXT x57282
f. TXT x57283
f. TXT x57284
f. TXT x57285
f. TXT x57286
f. TXT x57287
f. TXT x57288
f. TXT x57289
f. TXT x57290
f. TXT x57291
f. TXT x57292
f. TXT x57293
f. TXT x57294
f. TXT x57295
f. TXT x57296
f. TXT x57297
f. TXT x57298
f. TXT x57299
f. TXT x57300
f. TXT x57301
f. TXT x57302
f. TXT x57303
f. TXT x57304
f. TXT x57305
f. TXT x57306
f. TXT x57307
f. TXT x57308
f. TXT x57309
f. TXT x57310
f. TXT x57311
f. TXT x57312
f. TXT x57313
f. TXT x57314
f. TXT x57315
f. TXT x57316
f. TXT x57317
f. TXT x57318
f. TXT x57319
f. TXT x57320
f. TXT x57321
f. TXT x57322
f. TXT x57323
f. TXT x57324
f. TXT x57325
f. TXT x57326
f. TXT x57327
f. TXT x57328
f. TXT x57329
f. TXT x57330
f. TXT x57331
f. TXT x57332
f. TXT x57333
f. TXT x57334
f. TXT x57335
f. TXT x57336
f. TXT x57337
f. TXT x57338
f. TXT x57339
f. TXT x57340
f. TXT x57341
f. TXT x57342
f. TXT x57343
xx-.--. NS 0x
f. TXT x57345
f. TXT x57346
f. TXT x57347
f. TXT x57348
f. TXT x57349
f. TXT x57350
f. TXT x57351
f. TXT x57352
f. TXT x57353
f. TXT x57354
f. TXT x57355
f. TXT x57356
f. TXT x57357
f. TXT x57358
f. TXT x57359
f. TXT x57360
f. TXT x57361
f. TXT x57362
f. TXT x57363
f. TXT x57364
f. TXT x57365
f. TXT x57366
f. TXT x57367
f. TXT x57368
f. TXT x57369
f. TXT x57370
f. TXT x57371
f. TXT x57372
f. TXT x57373
f. TXT x57374
f. TXT x57375
f. TXT x57376
f. TXT x57377
f. TXT x57378
f. TXT x57379
f. TXT x57380
f. TXT x57381
f. TXT x57382
f. TXT x57383
f. TXT x57384
f. TXT x57385
f. TXT x57386
f. TXT x57387
f. TXT x57388
f. TXT x57389
f. TXT x57390
f. TXT x57391
f. TXT x57392
f. TXT x57393
f. TXT x57394
f. TXT x57395
f. TXT x57396
f. TXT x57397
f. TXT x57398
f. TXT x57399
f. TXT x57400
f. TXT x57401
f. TXT x57402
f. TXT x57403
f. TXT x57404
f. TXT x57405
f. TXT x57406
f. TXT x57407
*y- NS vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv ax*
f. TXT x57409
f. TXT x57410
f. TXT x57411
f. TXT x57412
f. TXT x57413
f. TXT x57414
f. TXT x57415
f. TXT x57416
f. TXT x57417
f. TXT x57418
f. TXT x57419
f. TXT x57420
f. TXT x57421
f. TXT x57422
f. TXT x57423
f. TXT x57424
f. TXT x57425
f. TXT x57426
f. TXT x57427
f. TXT x57428
f. TXT x57429
f. TXT x57430
f. TXT x57431
f. TXT x57432
f. TXT x57433
f. TXT x57434
f. TXT x57435
f. TXT x57436
f. TXT x57437
f. TXT x57438
f. TXT x57439
f. TXT x57440
f. TXT x57441
f. TXT x57442
f. TXT x57443
f. TXT x57444
f. TXT x57445
f. TXT x57446
f. TXT x57447
f. TXT x57448
f. TXT x57449
f. TXT x57450
f. TXT x57451
f. TXT x57452
f. TXT x57453
f. TXT x57454
f. TXT x57455
f. TXT x57456
f. TXT x57457
f. TXT x57458
f. TXT x57459
f. TXT x57460
f. TXT x57461
f. TXT x57462
f. TXT x57463
f. TXT x57464
f. TXT x57465
f. TXT x57466
f. TXT x57467
f. TXT x57468
f. TXT x57469
f. TXT x57470
f. TXT x57471
bxy. A cxa
f. TXT x57473
f. TXT x57474
f. TXT x57475
f. TXT x57476
f. TXT x57477
f. TXT x57478
f. TXT x57479
f. TXT x57480
f. TXT x57481
f. TXT x57482
f. TXT x57483
f. TXT x57484
f. TXT x57485
f. TXT x57486
f. TXT x57487
f. TXT x57488
f. TXT x57489
f. TXT x57490
f. TXT x57491
f. TXT x57492
f. TXT x57493
f. TXT x57494
f. TXT x57495
f. TXT x57496
f. TXT x57497
f. TXT x57498
f. TXT x57499
f. TXT x57500
f. TXT x57501
f. TXT x57502
f. TXT x57503
f. TXT x57504
f. TXT x57505
f. TXT x57506
f. TXT x57507
f. TXT x57508
f. TXT x57509
f. TXT x57510
f. TXT x57511
f. TXT x57512
f. TXT x57513
f. TXT x57514
f. TXT x57515
f. TXT x57516
f. TXT x57517
f. TXT x57518
f. TXT x57519
f. TXT x57520
f. TXT x57521
f. TXT x57522
f. TXT x57523
f. TXT x57524
f. TXT x57525
f. TXT x57526
f. TXT x57527
f. TXT x57528
f. TXT x57529
f. TXT x57530
f. TXT x57531
f. TXT x57532
f. TXT x57533
f. TXT x57534
f. TXT x57535
 A cbz
f. TXT x57537
f. TXT x57538
f. TXT x57539
f. TXT x57540
f. TXT x57541
f. TXT x57542
f. TXT x57543
f. TXT x57544
f. TXT x57545
f. TXT x57546
f. TXT x57547
f. TXT x57548
f. TXT x57549
f. TXT x57550
f. TXT x57551
f. TXT x57552
f. TXT x57553
f. TXT x57554
f. TXT x57555
f. TXT x57556
f. TXT x57557
f. TXT x57558
f. TXT x57559
f. TXT x57560
f. TXT x57561
f. TXT x57562
f. TXT x57563
f. TXT x57564
f. TXT x57565
f. TXT x57566
f. TXT x57567
f. TXT x57568
f. TXT x57569
f. TXT x57570
f. TXT x57571
f. TXT x57572
f. TXT x57573
f. TXT x57574
f. TXT x57575
f. TXT x57576
f. TXT x57577
f. TXT x57578
f. TXT x57579
f. TXT x57580
f. TXT x57581
f. TXT x57582
f. TXT x57583
f. TXT x57584
f. TXT x57585
f. TXT x57586
f. TXT x57587
f. TXT x57588
f. TXT x57589
f. TXT x57590
f. TXT x57591
f. TXT x57592
f. TXT x57593
f. TXT x57594
f. TXT x57595
f. TXT x57596
f. TXT x57597
f. TXT x57598
f. TXT x57599
@ A z xz0
f. TXT x57601
f. TXT x57602
f. TXT x57603
f. TXT x57604
f. TXT x57605
f. TXT x57606
f. TXT x57607
f. TXT x57608
f. TXT x57609
f. TXT x57610
f. TXT x57611
f. TXT x57612
f. TXT x57613
f. TXT x57614
f. TXT x57615
f. TXT x57616
f. TXT x57617
f. TXT x57618
f. TXT x57619
f. TXT x57620
f. TXT x57621
f. TXT x57622
f. TXT x57623
f. TXT x57624
f. TXT x57625
f. TXT x57626
f. TXT x57627
f. TXT x57628
f. TXT x57629
f. TXT x57630
f. TXT x57631
f. TXT x57632
f. TXT x57633
f. TXT x57634
f. TXT x57635
f. TXT x57636
f. TXT x57637
f. TXT x57638
f. TXT x57639
f. TXT x57640
f. TXT x57641
f. TXT x57642
f. TXT x57643
f. TXT x57644
f. TXT x57645
f. TXT x57646
f. TXT x57647
f. TXT x57648
f. TXT x57649
f. TXT x57650
f. TXT x57651
f. TXT x57652
f. TXT x57653
f. TXT x57654
f. TXT x57655
f. TXT x57656
f. TXT x57657
f. TXT x57658
f. TXT x57659
f. TXT x57660
f. TXT x57661
f. TXT x57662
f. TXT x57663

f. TXT x57665
f. TXT x57666
f. TXT x57667
f. TXT x57668
f. TXT x57669
f. TXT x57670
f. TXT x57671
f. TXT x57672
f. TXT x57673
f. TXT x57674
f. TXT x57675
f. TXT x57676
f. TXT x57677
f. TXT x57678
f. TXT x57679
f. TXT x57680
f. TXT x57681
f. TXT x57682
f. TXT x57683
f. TXT x57684
f. TXT x57685
f. TXT x57686
f. TXT x57687
f. TXT x57688
f. TXT x57689
f. TXT x57690
f. TXT x57691
f. TXT x57692
f. TXT x57693
f. TXT x57694
f. TXT x57695
f. TXT x57696
f. TXT x57697
f. TXT x57698
f. TXT x57699
f. TXT x57700
f. TXT x57701
f. TXT x57702
f. TXT x57703
f. TXT x57704
f. TXT x57705
f. TXT x57706
f. TXT x57707
f. TXT x57708
f. TXT x57709
f. TXT x57710
f. TXT x57711
f. TXT x57712
f. TXT x57713
f. TXT x57714
f. TXT x57715
f. TXT x57716
f. TXT x57717
f. TXT x57718
f. TXT x57719
f. TXT x57720
f. TXT x57721
f. TXT x57722
f. TXT x57723
f. TXT x57724
f. TXT x57725
f. TXT x57726
f. TXT x57727
-ab*. NS b- ax0b xy
f. TXT x57729
f. TXT x57730
f. TXT x57731
f. TXT x57732
f. TXT x57733
f. TXT x57734
f. TXT x57735
f. TXT x57736
f. TXT x57737
f. TXT x57738
f. TXT x57739
f. TXT x57740
f. TXT x57741
f. TXT x57742
f. TXT x57743
f. TXT x57744
f. TXT x57745
f. TXT x57746
f. TXT x57747
f. TXT x57748
f. TXT x57749
f. TXT x57750
f. TXT x57751
f. TXT x57752
f. TXT x57753
f. TXT x57754
f. TXT x57755
f. TXT x57756
f. TXT x57757
f. TXT x57758
f. TXT x57759
f. TXT x57760
f. TXT x57761
f. TXT x57762
f. TXT x57763
f. TXT x57764
f. TXT x57765
f. TXT x57766
f. TXT x57767
f. TXT x57768
f. TXT x57769
f. TXT x57770
f. TXT x57771
f. TXT x57772
f. TXT x57773
f. TXT x57774
f. TXT x57775
f. TXT x57776
f. TXT x57777
f. TXT x57778
f. TXT x57779
f. TXT x57780
f. TXT x57781
f. TXT x57782
f. TXT x57783
f. TXT x57784
f. TXT x57785
f. TXT x57786
f. TXT x57787
f. TXT x57788
f. TXT x57789
f. TXT x57790
f. TXT x57791

f. TXT x57793
f. TXT x57794
f. TXT x57795
f. TXT x57796
f. TXT x57797
f. TXT x57798
f. TXT x57799
f. TXT x57800
f. TXT x57801
f. TXT x57802
f. TXT x57803
f. TXT x57804
f. TXT x57805
f. TXT x57806
f. TXT x57807
f. TXT x57808
f. TXT x57809
f. TXT x57810
f. TXT x57811
f. TXT x57812
f. TXT x57813
f. TXT x57814
f. TXT x57815
f. TXT x57816
f. TXT x57817
f. TXT x57818
f. TXT x57819
f. TXT x57820
f. TXT x57821
f. TXT x57822
f. TXT x57823
f. TXT x57824
f. TXT x57825
f. TXT x57826
f. TXT x57827
f. TXT x57828
f. TXT x57829
f. TXT x57830
f. TXT x57831
f. TXT x57832
f. TXT x57833
f. TXT x57834
f. TXT x57835
f. TXT x57836
f. TXT x57837
f. TXT x57838
f. TXT x57839
f. TXT x57840
f. TXT x57841
f. TXT x57842
f. TXT x57843
f. TXT x57844
f. TXT x57845
f. TXT x57846
f. TXT x57847
f. TXT x57848
f. TXT x57849
f. TXT x57850
f. TXT x57851
f. TXT x57852
f. TXT x57853
f. TXT x57854
f. TXT x57855
$ORIGIN 0z.cx-.
f. TXT x57857
f. TXT x57858
f. TXT x57859
f. TXT x57860
f. TXT x57861
f. TXT x57862
f. TXT x57863
f. TXT x57864
f. TXT x57865
f. TXT x57866
f. TXT x57867
f. TXT x57868
f. TXT x57869
f. TXT x57870
f. TXT x57871
f. TXT x57872
f. TXT x57873
f. TXT x57874
f. TXT x57875
f. TXT x57876
f. TXT x57877
f. TXT x57878
f. TXT x57879
f. TXT x57880
f. TXT x57881
f. TXT x57882
f. TXT x57883
f. TXT x57884
f. TXT x57885
f. TXT x57886
f. TXT x57887
f. TXT x57888
f. TXT x57889
f. TXT x57890
f. TXT x57891
f. TXT x57892
f. TXT x57893
f. TXT x57894
f. TXT x57895
f. TXT x57896
f. TXT x57897
f. TXT x57898
f. TXT x57899
f. TXT x57900
f. TXT x57901
f. TXT x57902
f. TXT x57903
f. TXT x57904
f. TXT x57905
f. TXT x57906
f. TXT x57907
f. TXT x57908
f. TXT x57909
f. TXT x57910
f. TXT x57911
f. TXT x57912
f. TXT x57913
f. TXT x57914
f. TXT x57915
f. TXT x57916
f. TXT x57917
f. TXT x57918
f. TXT x57919
-b0y.zzbx. TXT xay- xa- *-y
f. TXT x57921
f. TXT x57922
f. TXT x57923
f. TXT x57924
f. TXT x57925
f. TXT x57926
f. TXT x57927
f. TXT x57928
f. TXT x57929
f. TXT x57930
f. TXT x57931
f. TXT x57932
f. TXT x57933
f. TXT x57934
f. TXT x57935
f. TXT x57936
f. TXT x57937
f. TXT x57938
f. TXT x57939
f. TXT x57940
f. TXT x57941
f. TXT x57942
f. TXT x57943
f. TXT x57944
f. TXT x57945
f. TXT x57946
f. TXT x57947
f. TXT x57948
f. TXT x57949
f. TXT x57950
f. TXT x57951
f. TXT x57952
f. TXT x57953
f. TXT x57954
f. TXT x57955
f. TXT x57956
f. TXT x57957
f. TXT x57958
f. TXT x57959
f. TXT x57960
f. TXT x57961
f. TXT x57962
f. TXT x57963
f. TXT x57964
f. TXT x57965
f. TXT x57966
f. TXT x57967
f. TXT x57968
f. TXT x57969
f. TXT x57970
f. TXT x57971
f. TXT x57972
f. TXT x57973
f. TXT x57974
f. TXT x57975
f. TXT x57976
f. TXT x57977
f. TXT x57978
f. TXT x57979
f. TXT x57980
f. TXT x57981
f. TXT x57982
f. TXT x57983
z*ab TXT x0z zczz bbc-
f. TXT x57985
f. TXT x57986
f. TXT x57987
f. TXT x57988
f. TXT x57989
f. TXT x57990
f. TXT x57991
f. TXT x57992
f. TXT x57993
f. TXT x57994
f. TXT x57995
f. TXT x57996
f. TXT x57997
f. TXT x57998
f. TXT x57999
f. TXT x58000
f. TXT x58001
f. TXT x58002
f. TXT x58003
f. TXT x58004
f. TXT x58005
f. TXT x58006
f. TXT x58007
f. TXT x58008
f. TXT x58009
f. TXT x58010
f. TXT x58011
f. TXT x58012
f. TXT x58013
f. TXT x58014
f. TXT x58015
f. TXT x58016
f. TXT x58017
f. TXT x58018
f. TXT x58019
f. TXT x58020
f. TXT x58021
f. TXT x58022
f. TXT x58023
f. TXT x58024
f. TXT x58025
f. TXT x58026
f. TXT x58027
f. TXT x58028
f. TXT x58029
f. TXT x58030
f. TXT x58031
f. TXT x58032
f. TXT x58033
f. TXT x58034
f. TXT x58035
f. TXT x58036
f. TXT x58037
f. TXT x58038
f. TXT x58039
f. TXT x58040
f. TXT x58041
f. TXT x58042
f. TXT x58043
f. TXT x58044
f. TXT x58045
f. TXT x58046
f. TXT x58047
x**a. TXT *yb
f. TXT x58049
f. TXT x58050
f. TXT x58051
f. TXT x58052
f. TXT x58053
f. TXT x58054
f. TXT x58055
f. TXT x58056
f. TXT x58057
f. TXT x58058
f. TXT x58059
f. TXT x58060
f. TXT x58061
f. TXT x58062
f. TXT x58063
f. TXT x58064
f. TXT x58065
f. TXT x58066
f. TXT x58067
f. TXT x58068
f. TXT x58069
f. TXT x58070
f. TXT x58071
f. TXT x58072
f. TXT x58073
f. TXT x58074
f. TXT x58075
f. TXT x58076
f. TXT x58077
f. TXT x58078
f. TXT x58079
f. TXT x58080
f. TXT x58081
f. TXT x58082
f. TXT x58083
f. TXT x58084
f. TXT x58085
f. TXT x58086
f. TXT x58087
f. TXT x58088
f. TXT x58089
f. TXT x58090
f. TXT x58091
f. TXT x58092
f. TXT x58093
f. TXT x58094
f. TXT x58095
f. TXT x58096
f. TXT x58097
f. TXT x58098
f. TXT x58099
f. TXT x58100
f. TXT x58101
f. TXT x58102
f. TXT x58103
f. TXT x58104
f. TXT x58105
f. TXT x58106
f. TXT x58107
f. TXT x58108
f. TXT x58109
f. TXT x58110
f. TXT x58111
z TXT czc* cya 00
f. TXT x58113
f. TXT x58114
f. TXT x58115
f. TXT x58116
f. TXT x58117
f. TXT x58118
f. TXT x58119
f. TXT x58120
f. TXT x58121
f. TXT x58122
f. TXT x58123
f. TXT x58124
f. TXT x58125
f. TXT x58126
f. TXT x58127
f. TXT x58128
f. TXT x58129
f. TXT x58130
f. TXT x58131
f. TXT x58132
f. TXT x58133
f. TXT x58134
f. TXT x58135
f. TXT x58136
f. TXT x58137
f. TXT x58138
f. TXT x58139
f. TXT x58140
f. TXT x58141
f. TXT x58142
f. TXT x58143
f. TXT x58144
f. TXT x58145
f. TXT x58146
f. TXT x58147
f. TXT x58148
f. TXT x58149
f. TXT x58150
f. TXT x58151
f. TXT x58152
f. TXT x58153
f. TXT x58154
f. TXT x58155
f. TXT x58156
f. TXT x58157
f. TXT x58158
f. TXT x58159
f. TXT x58160
f. TXT x58161
f. TXT x58162
f. TXT x58163
f. TXT x58164
f. TXT x58165
f. TXT x58166
f. TXT x58167
f. TXT x58168
f. TXT x58169
f. TXT x58170
f. TXT x58171
f. TXT x58172
f. TXT x58173
f. TXT x58174
f. TXT x58175
 NS z
f. TXT x58177
f. TXT x58178
f. TXT x58179
f. TXT x58180
f. TXT x58181
f. TXT x58182
f. TXT x58183
f. TXT x58184
f. TXT x58185
f. TXT x58186
f. TXT x58187
f. TXT x58188
f. TXT x58189
f. TXT x58190
f. TXT x58191
f. TXT x58192
f. TXT x58193
f. TXT x58194
f. TXT x58195
f. TXT x58196
f. TXT x58197
f. TXT x58198
f. TXT x58199
f. TXT x58200
f. TXT x58201
f. TXT x58202
f. TXT x58203
f. TXT x58204
f. TXT x58205
f. TXT x58206
f. TXT x58207
f. TXT x58208
f. TXT x58209
f. TXT x58210
f. TXT x58211
f. TXT x58212
f. TXT x58213
f. TXT x58214
f. TXT x58215
f. TXT x58216
f. TXT x58217
f. TXT x58218
f. TXT x58219
f. TXT x58220
f. TXT x58221
f. TXT x58222
f. TXT x58223
f. TXT x58224
f. TXT x58225
f. TXT x58226
f. TXT x58227
f. TXT x58228
f. TXT x58229
f. TXT x58230
f. TXT x58231
f. TXT x58232
f. TXT x58233
f. TXT x58234
f. TXT x58235
f. TXT x58236
f. TXT x58237
f. TXT x58238
f. TXT x58239
 A bax* c-0y xza
f. TXT x58241
f. TXT x58242
f. TXT x58243
f. TXT x58244
f. TXT x58245
f. TXT x58246
f. TXT x58247
f. TXT x58248
f. TXT x58249
f. TXT x58250
f. TXT x58251
f. TXT x58252
f. TXT x58253
f. TXT x58254
f. TXT x58255
f. TXT x58256
f. TXT x58257
f. TXT x58258
f. TXT x58259
f. TXT x58260
f. TXT x58261
f. TXT x58262
f. TXT x58263
f. TXT x58264
f. TXT x58265
f. TXT x58266
f. TXT x58267
f. TXT x58268
f. TXT x58269
f. TXT x58270
f. TXT x58271
f. TXT x58272
f. TXT x58273
f. TXT x58274
f. TXT x58275
f. TXT x58276
f. TXT x58277
f. TXT x58278
f. TXT x58279
f. TXT x58280
f. TXT x58281
f. TXT x58282
f. TXT x58283
f. TXT x58284
f. TXT x58285
f. TXT x58286
f. TXT x58287
f. TXT x58288
f. TXT x58289
f. TXT x58290
f. TXT x58291
f. TXT x58292
f. TXT x58293
f. TXT x58294
f. TXT x58295
f. TXT x58296
f. TXT x58297
f. TXT x58298
f. TXT x58299
f. TXT x58300
f. TXT x58301
f. TXT x58302
f. TXT x58303
@ NS c*xb
f. TXT x58305
f. TXT x58306
f. TXT x58307
f. TXT x58308
f. TXT x58309
f. TXT x58310
f. TXT x58311
f. TXT x58312
f. TXT x58313
f. TXT x58314
f. TXT x58315
f. TXT x58316
f. TXT x58317
f. TXT x58318
f. TXT x58319
f. TXT x58320
f. TXT x58321
f. TXT x58322
f. TXT x58323
f. TXT x58324
f. TXT x58325
f. TXT x58326
f. TXT x58327
f. TXT x58328
f. TXT x58329
f. TXT x58330
f. TXT x58331
f. TXT x58332
f. TXT x58333
f. TXT x58334
f. TXT x58335
f. TXT x58336
f. TXT x58337
f. TXT x58338
f. TXT x58339
f. TXT x58340
f. TXT x58341
f. TXT x58342
f. TXT x58343
f. TXT x58344
f. TXT x58345
f. TXT x58346
f. TXT x58347
f. TXT x58348
f. TXT x58349
f. TXT x58350
f. TXT x58351
f. TXT x58352
f. TXT x58353
f. TXT x58354
f. TXT x58355
f. TXT x58356
f. TXT x58357
f. TXT x58358
f. TXT x58359
f. TXT x58360
f. TXT x58361
f. TXT x58362
f. TXT x58363
f. TXT x58364
f. TXT x58365
f. TXT x58366
f. TXT x58367
-yaa NS yy y*
f. TXT x58369
f. TXT x58370
f. TXT x58371
f. TXT x58372
f. TXT x58373
f. TXT x58374
f. TXT x58375
f. TXT x58376
f. TXT x58377
f. TXT x58378
f. TXT x58379
f. TXT x58380
f. TXT x58381
f. TXT x58382
f. TXT x58383
f. TXT x58384
f. TXT x58385
f. TXT x58386
f. TXT x58387
f. TXT x58388
f. TXT x58389
f. TXT x58390
f. TXT x58391
f. TXT x58392
f. TXT x58393
f. TXT x58394
f. TXT x58395
f. TXT x58396
f. TXT x58397
f. TXT x58398
f. TXT x58399
f. TXT x58400
f. TXT x58401
f. TXT x58402
f. TXT x58403
f. TXT x58404
f. TXT x58405
f. TXT x58406
f. TXT x58407
f. TXT x58408
f. TXT x58409
f. TXT x58410
f. TXT x58411
f. TXT x58412
f. TXT x58413
f. TXT x58414
f. TXT x58415
f. TXT x58416
f. TXT x58417
f. TXT x58418
f. TXT x58419
f. TXT x58420
f. TXT x58421
f. TXT x58422
f. TXT x58423
f. TXT x58424
f. TXT x58425
f. TXT x58426
f. TXT x58427
f. TXT x58428
f. TXT x58429
f. TXT x58430
f. TXT x58431
 TXT b*
f. TXT x58433
f. TXT x58434
f. TXT x58435
f. TXT x58436
f. TXT x58437
f. TXT x58438
f. TXT x58439
f. TXT x58440
f. TXT x58441
f. TXT x58442
f. TXT x58443
f. TXT x58444
f. TXT x58445
f. TXT x58446
f. TXT x58447
f. TXT x58448
f. TXT x58449
f. TXT x58450
f. TXT x58451
f. TXT x58452
f. TXT x58453
f. TXT x58454
f. TXT x58455
f. TXT x58456
f. TXT x58457
f. TXT x58458
f. TXT x58459
f. TXT x58460
f. TXT x58461
f. TXT x58462
f. TXT x58463
f. TXT x58464
f. TXT x58465
f. TXT x58466
f. TXT x58467
f. TXT x58468
f. TXT x58469
f. TXT x58470
f. TXT x58471
f. TXT x58472
f. TXT x58473
f. TXT x58474
f. TXT x58475
f. TXT x58476
f. TXT x58477
f. TXT x58478
f. TXT x58479
f. TXT x58480
f. TXT x58481
f. TXT x58482
f. TXT x58483
f. TXT x58484
f. TXT x58485
f. TXT x58486
f. TXT x58487
f. TXT x58488
f. TXT x58489
f. TXT x58490
f. TXT x58491
f. TXT x58492
f. TXT x58493
f. TXT x58494
f. TXT x58495

f. TXT x58497
f. TXT x58498
f. TXT x58499
f. TXT x58500
f. TXT x58501
f. TXT x58502
f. TXT x58503
f. TXT x58504
f. TXT x58505
f. TXT x58506
f. TXT x58507
f. TXT x58508
f. TXT x58509
f. TXT x58510
f. TXT x58511
f. TXT x58512
f. TXT x58513
f. TXT x58514
f. TXT x58515
f. TXT x58516
f. TXT x58517
f. TXT x58518
f. TXT x58519
f. TXT x58520
f. TXT x58521
f. TXT x58522
f. TXT x58523
f. TXT x58524
f. TXT x58525
f. TXT x58526
f. TXT x58527
f. TXT x58528
f. TXT x58529
f. TXT x58530
f. TXT x58531
f. TXT x58532
f. TXT x58533
f. TXT x58534
f. TXT x58535
f. TXT x58536
f. TXT x58537
f. TXT x58538
f. TXT x58539
f. TXT x58540
f. TXT x58541
f. TXT x58542
f. TXT x58543
f. TXT x58544
f. TXT x58545
f. TXT x58546
f. TXT x58547
f. TXT x58548
f. TXT x58549
f. TXT x58550
f. TXT x58551
f. TXT x58552
f. TXT x58553
f. TXT x58554
f. TXT x58555
f. TXT x58556
f. TXT x58557
f. TXT x58558
f. TXT x58559
-. A ** cz
f. TXT x58561
f. TXT x58562
f. TXT x58563
f. TXT x58564
f. TXT x58565
f. TXT x58566
f. TXT x58567
f. TXT x58568
f. TXT x58569
f. TXT x58570
f. TXT x58571
f. TXT x58572
f. TXT x58573
f. TXT x58574
f. TXT x58575
f. TXT x58576
f. TXT x58577
f. TXT x58578
f. TXT x58579
f. TXT x58580
f. TXT x58581
f. TXT x58582
f. TXT x58583
f. TXT x58584
f. TXT x58585
f. TXT x58586
f. TXT x58587
f. TXT x58588
f. TXT x58589
f. TXT x58590
f. TXT x58591
f. TXT x58592
f. TXT x58593
f. TXT x58594
f. TXT x58595
f. TXT x58596
f. TXT x58597
f. TXT x58598
f. TXT x58599
f. TXT x58600
f. TXT x58601
f. TXT x58602
f. TXT x58603
f. TXT x58604
f. TXT x58605
f. TXT x58606
f. TXT x58607
f. TXT x58608
f. TXT x58609
f. TXT x58610
f. TXT x58611
f. TXT x58612
f. TXT x58613
f. TXT x58614
f. TXT x58615
f. TXT x58616
f. TXT x58617
f. TXT x58618
f. TXT x58619
f. TXT x58620
f. TXT x58621
f. TXT x58622
f. TXT x58623
@ NS *c
f. TXT x58625
f. TXT x58626
f. TXT x58627
f. TXT x58628
f. TXT x58629
f. TXT x58630
f. TXT x58631
f. TXT x58632
f. TXT x58633
f. TXT x58634
f. TXT x58635
f. TXT x58636
f. TXT x58637
f. TXT x58638
f. TXT x58639
f. TXT x58640
f. TXT x58641
f. TXT x58642
f. TXT x58643
f. TXT x58644
f. TXT x58645
f. TXT x58646
f. TXT x58647
f. TXT x58648
f. TXT x58649
f. TXT x58650
f. TXT x58651
f. TXT x58652
f. TXT x58653
f. TXT x58654
f. TXT x58655
f. TXT x58656
f. TXT x58657
f. TXT x58658
f. TXT x58659
f. TXT x58660
f. TXT x58661
f. TXT x58662
f. TXT x58663
f. TXT x58664
f. TXT x58665
f. TXT x58666
f. TXT x58667
f. TXT x58668
f. TXT x58669
f. TXT x58670
f. TXT x58671
f. TXT x58672
f. TXT x58673
f. TXT x58674
f. TXT x58675
f. TXT x58676
f. TXT x58677
f. TXT x58678
f. TXT x58679
f. TXT x58680
f. TXT x58681
f. TXT x58682
f. TXT x58683
f. TXT x58684
f. TXT x58685
f. TXT x58686
f. TXT x58687
$ORIGIN *ya.
f. TXT x58689
f. TXT x58690
f. TXT x58691
f. TXT x58692
f. TXT x58693
f. TXT x58694
f. TXT x58695
f. TXT x58696
f. TXT x58697
f. TXT x58698
f. TXT x58699
f. TXT x58700
f. TXT x58701
f. TXT x58702
f. TXT x58703
f. TXT x58704
f. TXT x58705
f. TXT x58706
f. TXT x58707
f. TXT x58708
f. TXT x58709
f. TXT x58710
f. TXT x58711
f. TXT x58712
f. TXT x58713
f. TXT x58714
f. TXT x58715
f. TXT x58716
f. TXT x58717
f. TXT x58718
f. TXT x58719
f. TXT x58720
f. TXT x58721
f. TXT x58722
f. TXT x58723
f. TXT x58724
f. TXT x58725
f. TXT x58726
f. TXT x58727
f. TXT x58728
f. TXT x58729
f. TXT x58730
f. TXT x58731
f. TXT x58732
f. TXT x58733
f. TXT x58734
f. TXT x58735
f. TXT x58736
f. TXT x58737
f. TXT x58738
f. TXT x58739
f. TXT x58740
f. TXT x58741
f. TXT x58742
f. TXT x58743
f. TXT x58744
f. TXT x58745
f. TXT x58746
f. TXT x58747
f. TXT x58748
f. TXT x58749
f. TXT x58750
f. TXT x58751
- NS *zy
f. TXT x58753
f. TXT x58754
f. TXT x58755
f. TXT x58756
f. TXT x58757
f. TXT x58758
f. TXT x58759
f. TXT x58760
f. TXT x58761
f. TXT x58762
f. TXT x58763
f. TXT x58764
f. TXT x58765
f. TXT x58766
f. TXT x58767
f. TXT x58768
f. TXT x58769
f. TXT x58770
f. TXT x58771
f. TXT x58772
f. TXT x58773
f. TXT x58774
f. TXT x58775
f. TXT x58776
f. TXT x58777
f. TXT x58778
f. TXT x58779
f. TXT x58780
f. TXT x58781
f. TXT x58782
f. TXT x58783
f. TXT x58784
f. TXT x58785
f. TXT x58786
f. TXT x58787
f. TXT x58788
f. TXT x58789
f. TXT x58790
f. TXT x58791
f. TXT x58792
f. TXT x58793
f. TXT x58794
f. TXT x58795
f. TXT x58796
f. TXT x58797
f. TXT x58798
f. TXT x58799
f. TXT x58800
f. TXT x58801
f. TXT x58802
f. TXT x58803
f. TXT x58804
f. TXT x58805
f. TXT x58806
f. TXT x58807
f. TXT x58808
f. TXT x58809
f. TXT x58810
f. TXT x58811
f. TXT x58812
f. TXT x58813
f. TXT x58814
f. TXT x58815
$ORIGIN 0.b.
f. TXT x58817
f. TXT x58818
f. TXT x58819
f. TXT x58820
f. TXT x58821
f. TXT x58822
f. TXT x58823
f. TXT x58824
f. TXT x58825
f. TXT x58826
f. TXT x58827
f. TXT x58828
f. TXT x58829
f. TXT x58830
f. TXT x58831
f. TXT x58832
f. TXT x58833
f. TXT x58834
f. TXT x58835
f. TXT x58836
f. TXT x58837
f. TXT x58838
f. TXT x58839
f. TXT x58840
f. TXT x58841
f. TXT x58842
f. TXT x58843
f. TXT x58844
f. TXT x58845
f. TXT x58846
f. TXT x58847
f. TXT x58848
f. TXT x58849
f. TXT x58850
f. TXT x58851
f. TXT x58852
f. TXT x58853
f. TXT x58854
f. TXT x58855
f. TXT x58856
f. TXT x58857
f. TXT x58858
f. TXT x58859
f. TXT x58860
f. TXT x58861
f. TXT x58862
f. TXT x58863
f. TXT x58864
f. TXT x58865
f. TXT x58866
f. TXT x58867
f. TXT x58868
f. TXT x58869
f. TXT x58870
f. TXT x58871
f. TXT x58872
f. TXT x58873
f. TXT x58874
f. TXT x58875
f. TXT x58876
f. TXT x58877
f. TXT x58878
f. TXT x58879
bxz*. A -c
f. TXT x58881
f. TXT x58882
f. TXT x58883
f. TXT x58884
f. TXT x58885
f. TXT x58886
f. TXT x58887
f. TXT x58888
f. TXT x58889
f. TXT x58890
f. TXT x58891
f. TXT x58892
f. TXT x58893
f. TXT x58894
f. TXT x58895
f. TXT x58896
f. TXT x58897
f. TXT x58898
f. TXT x58899
f. TXT x58900
f. TXT x58901
f. TXT x58902
f. TXT x58903
f. TXT x58904
f. TXT x58905
f. TXT x58906
f. TXT x58907
f. TXT x58908
f. TXT x58909
f. TXT x58910
f. TXT x58911
f. TXT x58912
f. TXT x58913
f. TXT x58914
f. TXT x58915
f. TXT x58916
f. TXT x58917
f. TXT x58918
f. TXT x58919
f. TXT x58920
f. TXT x58921
f. TXT x58922
f. TXT x58923
f. TXT x58924
f. TXT x58925
f. TXT x58926
f. TXT x58927
f. TXT x58928
f. TXT x58929
f. TXT x58930
f. TXT x58931
f. TXT x58932
f. TXT x58933
f. TXT x58934
f. TXT x58935
f. TXT x58936
f. TXT x58937
f. TXT x58938
f. TXT x58939
f. TXT x58940
f. TXT x58941
f. TXT x58942
f. TXT x58943

f. TXT x58945
f. TXT x58946
f. TXT x58947
f. TXT x58948
f. TXT x58949
f. TXT x58950
f. TXT x58951
f. TXT x58952
f. TXT x58953
f. TXT x58954
f. TXT x58955
f. TXT x58956
f. TXT x58957
f. TXT x58958
f. TXT x58959
f. TXT x58960
f. TXT x58961
f. TXT x58962
f. TXT x58963
f. TXT x58964
f. TXT x58965
f. TXT x58966
f. TXT x58967
f. TXT x58968
f. TXT x58969
f. TXT x58970
f. TXT x58971
f. TXT x58972
f. TXT x58973
f. TXT x58974
f. TXT x58975
f. TXT x58976
f. TXT x58977
f. TXT x58978
f. TXT x58979
f. TXT x58980
f. TXT x58981
f. TXT x58982
f. TXT x58983
f. TXT x58984
f. TXT x58985
f. TXT x58986
f. TXT x58987
f. TXT x58988
f. TXT x58989
f. TXT x58990
f. TXT x58991
f. TXT x58992
f. TXT x58993
f. TXT x58994
f. TXT x58995
f. TXT x58996
f. TXT x58997
f. TXT x58998
f. TXT x58999
f. TXT x59000
f. TXT x59001
f. TXT x59002
f. TXT x59003
f. TXT x59004
f. TXT x59005
f. TXT x59006
f. TXT x59007
@ TXT z y0zx -azc
f. TXT x59009
f. TXT x59010
f. TXT x59011
f. TXT x59012
f. TXT x59013
f. TXT x59014
f. TXT x59015
f. TXT x59016
f. TXT x59017
f. TXT x59018
f. TXT x59019
f. TXT x59020
f. TXT x59021
f. TXT x59022
f. TXT x59023
f. TXT x59024
f. TXT x59025
f. TXT x59026
f. TXT x59027
f. TXT x59028
f. TXT x59029
f. TXT x59030
f. TXT x59031
f. TXT x59032
f. TXT x59033
f. TXT x59034
f. TXT x59035
f. TXT x59036
f. TXT x59037
f. TXT x59038
f. TXT x59039
f. TXT x59040
f. TXT x59041
f. TXT x59042
f. TXT x59043
f. TXT x59044
f. TXT x59045
f. TXT x59046
f. TXT x59047
f. TXT x59048
f. TXT x59049
f. TXT x59050
f. TXT x59051
f. TXT x59052
f. TXT x59053
f. TXT x59054
f. TXT x59055
f. TXT x59056
f. TXT x59057
f. TXT x59058
f. TXT x59059
f. TXT x59060
f. TXT x59061
f. TXT x59062
f. TXT x59063
f. TXT x59064
f. TXT x59065
f. TXT x59066
f. TXT x59067
f. TXT x59068
f. TXT x59069
f. TXT x59070
f. TXT x59071

f. TXT x59073
f. TXT x59074
f. TXT x59075
f. TXT x59076
f. TXT x59077
f. TXT x59078
f. TXT x59079
f. TXT x59080
f. TXT x59081
f. TXT x59082
f. TXT x59083
f. TXT x59084
f. TXT x59085
f. TXT x59086
f. TXT x59087
f. TXT x59088
f. TXT x59089
f. TXT x59090
f. TXT x59091
f. TXT x59092
f. TXT x59093
f. TXT x59094
f. TXT x59095
f. TXT x59096
f. TXT x59097
f. TXT x59098
f. TXT x59099
f. TXT x59100
f. TXT x59101
f. TXT x59102
f. TXT x59103
f. TXT x59104
f. TXT x59105
f. TXT x59106
f. TXT x59107
f. TXT x59108
f. TXT x59109
f. TXT x59110
f. TXT x59111
f. TXT x59112
f. TXT x59113
f. TXT x59114
f. TXT x59115
f. TXT x59116
f. TXT x59117
f. TXT x59118
f. TXT x59119
f. TXT x59120
f. TXT x59121
f. TXT x59122
f. TXT x59123
f. TXT x59124
f. TXT x59125
f. TXT x59126
f. TXT x59127
f. TXT x59128
f. TXT x59129
f. TXT x59130
f. TXT x59131
f. TXT x59132
f. TXT x59133
f. TXT x59134
f. TXT x59135
x--. A ab- 0z yz
f. TXT x59137
f. TXT x59138
f. TXT x59139
f. TXT x59140
f. TXT x59141
f. TXT x59142
f. TXT x59143
f. TXT x59144
f. TXT x59145
f. TXT x59146
f. TXT x59147
f. TXT x59148
f. TXT x59149
f. TXT x59150
f. TXT x59151
f. TXT x59152
f. TXT x59153
f. TXT x59154
f. TXT x59155
f. TXT x59156
f. TXT x59157
f. TXT x59158
f. TXT x59159
f. TXT x59160
f. TXT x59161
f. TXT x59162
f. TXT x59163
f. TXT x59164
f. TXT x59165
f. TXT x59166
f. TXT x59167
f. TXT x59168
f. TXT x59169
f. TXT x59170
f. TXT x59171
f. TXT x59172
f. TXT x59173
f. TXT x59174
f. TXT x59175
f. TXT x59176
f. TXT x59177
f. TXT x59178
f. TXT x59179
f. TXT x59180
f. TXT x59181
f. TXT x59182
f. TXT x59183
f. TXT x59184
f. TXT x59185
f. TXT x59186
f. TXT x59187
f. TXT x59188
f. TXT x59189
f. TXT x59190
f. TXT x59191
f. TXT x59192
f. TXT x59193
f. TXT x59194
f. TXT x59195
f. TXT x59196
f. TXT x59197
f. TXT x59198
f. TXT x59199
@ A a0z xzz* b
f. TXT x59201
f. TXT x59202
f. TXT x59203
f. TXT x59204
f. TXT x59205
f. TXT x59206
f. TXT x59207
f. TXT x59208
f. TXT x59209
f. TXT x59210
f. TXT x59211
f. TXT x59212
f. TXT x59213
f. TXT x59214
f. TXT x59215
f. TXT x59216
f. TXT x59217
f. TXT x59218
f. TXT x59219
f. TXT x59220
f. TXT x59221
f. TXT x59222
f. TXT x59223
f. TXT x59224
f. TXT x59225
f. TXT x59226
f. TXT x59227
f. TXT x59228
f. TXT x59229
f. TXT x59230
f. TXT x59231
f. TXT x59232
f. TXT x59233
f. TXT x59234
f. TXT x59235
f. TXT x59236
f. TXT x59237
f. TXT x59238
f. TXT x59239
f. TXT x59240
f. TXT x59241
f. TXT x59242
f. TXT x59243
f. TXT x59244
f. TXT x59245
f. TXT x59246
f. TXT x59247
f. TXT x59248
f. TXT x59249
f. TXT x59250
f. TXT x59251
f. TXT x59252
f. TXT x59253
f. TXT x59254
f. TXT x59255
f. TXT x59256
f. TXT x59257
f. TXT x59258
f. TXT x59259
f. TXT x59260
f. TXT x59261
f. TXT x59262
f. TXT x59263

f. TXT x59265
f. TXT x59266
f. TXT x59267
f. TXT x59268
f. TXT x59269
f. TXT x59270
f. TXT x59271
f. TXT x59272
f. TXT x59273
f. TXT x59274
f. TXT x59275
f. TXT x59276
f. TXT x59277
f. TXT x59278
f. TXT x59279
f. TXT x59280
f. TXT x59281
f. TXT x59282
f. TXT x59283
f. TXT x59284
f. TXT x59285
f. TXT x59286
f. TXT x59287
f. TXT x59288
f. TXT x59289
f. TXT x59290
f. TXT x59291
f. TXT x59292
f. TXT x59293
f. TXT x59294
f. TXT x59295
f. TXT x59296
f. TXT x59297
f. TXT x59298
f. TXT x59299
f. TXT x59300
f. TXT x59301
f. TXT x59302
f. TXT x59303
f. TXT x59304
f. TXT x59305
f. TXT x59306
f. TXT x59307
f. TXT x59308
f. TXT x59309
f. TXT x59310
f. TXT x59311
f. TXT x59312
f. TXT x59313
f. TXT x59314
f. TXT x59315
f. TXT x59316
f. TXT x59317
f. TXT x59318
f. TXT x59319
f. TXT x59320
f. TXT x59321
f. TXT x59322
f. TXT x59323
f. TXT x59324
f. TXT x59325
f. TXT x59326
f. TXT x59327
a*y. TXT -0 *-
f. TXT x59329
f. TXT x59330
f. TXT x59331
f. TXT x59332
f. TXT x59333
f. TXT x59334
f. TXT x59335
f. TXT x59336
f. TXT x59337
f. TXT x59338
f. TXT x59339
f. TXT x59340
f. TXT x59341
f. TXT x59342
f. TXT x59343
f. TXT x59344
f. TXT x59345
f. TXT x59346
f. TXT x59347
f. TXT x59348
f. TXT x59349
f. TXT x59350
f. TXT x59351
f. TXT x59352
f. TXT x59353
f. TXT x59354
f. TXT x59355
f. TXT x59356
f. TXT x59357
f. TXT x59358
f. TXT x59359
f. TXT x59360
f. TXT x59361
f. TXT x59362
f. TXT x59363
f. TXT x59364
f. TXT x59365
f. TXT x59366
f. TXT x59367
f. TXT x59368
f. TXT x59369
f. TXT x59370
f. TXT x59371
f. TXT x59372
f. TXT x59373
f. TXT x59374
f. TXT x59375
f. TXT x59376
f. TXT x59377
f. TXT x59378
f. TXT x59379
f. TXT x59380
f. TXT x59381
f. TXT x59382
f. TXT x59383
f. TXT x59384
f. TXT x59385
f. TXT x59386
f. TXT x59387
f. TXT x59388
f. TXT x59389
f. TXT x59390
f. TXT x59391

f. TXT x59393
f. TXT x59394
f. TXT x59395
f. TXT x59396
f. TXT x59397
f. TXT x59398
f. TXT x59399
f. TXT x59400
f. TXT x59401
f. TXT x59402
f. TXT x59403
f. TXT x59404
f. TXT x59405
f. TXT x59406
f. TXT x59407
f. TXT x59408
f. TXT x59409
f. TXT x59410
f. TXT x59411
f. TXT x59412
f. TXT x59413
f. TXT x59414
f. TXT x59415
f. TXT x59416
f. TXT x59417
f. TXT x59418
f. TXT x59419
f. TXT x59420
f. TXT x59421
f. TXT x59422
f. TXT x59423
f. TXT x59424
f. TXT x59425
f. TXT x59426
f. TXT x59427
f. TXT x59428
f. TXT x59429
f. TXT x59430
f. TXT x59431
f. TXT x59432
f. TXT x59433
f. TXT x59434
f. TXT x59435
f. TXT x59436
f. TXT x59437
f. TXT x59438
f. TXT x59439
f. TXT x59440
f. TXT x59441
f. TXT x59442
f. TXT x59443
f. TXT x59444
f. TXT x59445
f. TXT x59446
f. TXT x59447
f. TXT x59448
f. TXT x59449
f. TXT x59450
f. TXT x59451
f. TXT x59452
f. TXT x59453
f. TXT x59454
f. TXT x59455
@ A z-0
f. TXT x59457
f. TXT x59458
f. TXT x59459
f. TXT x59460
f. TXT x59461
f. TXT x59462
f. TXT x59463
f. TXT x59464
f. TXT x59465
f. TXT x59466
f. TXT x59467
f. TXT x59468
f. TXT x59469
f. TXT x59470
f. TXT x59471
f. TXT x59472
f. TXT x59473
f. TXT x59474
f. TXT x59475
f. TXT x59476
f. TXT x59477
f. TXT x59478
f. TXT x59479
f. TXT x59480
f. TXT x59481
f. TXT x59482
f. TXT x59483
f. TXT x59484
f. TXT x59485
f. TXT x59486
f. TXT x59487
f. TXT x59488
f. TXT x59489
f. TXT x59490
f. TXT x59491
f. TXT x59492
f. TXT x59493
f. TXT x59494
f. TXT x59495
f. TXT x59496
f. TXT x59497
f. TXT x59498
f. TXT x59499
f. TXT x59500
f. TXT x59501
f. TXT x59502
f. TXT x59503
f. TXT x59504
f. TXT x59505
f. TXT x59506
f. TXT x59507
f. TXT x59508
f. TXT x59509
f. TXT x59510
f. TXT x59511
f. TXT x59512
f. TXT x59513
f. TXT x59514
f. TXT x59515
f. TXT x59516
f. TXT x59517
f. TXT x59518
f. TXT x59519
@ A **zz
f. TXT x59521
f. TXT x59522
f. TXT x59523
f. TXT x59524
f. TXT x59525
f. TXT x59526
f. TXT x59527
f. TXT x59528
f. TXT x59529
f. TXT x59530
f. TXT x59531
f. TXT x59532
f. TXT x59533
f. TXT x59534
f. TXT x59535
f. TXT x59536
f. TXT x59537
f. TXT x59538
f. TXT x59539
f. TXT x59540
f. TXT x59541
f. TXT x59542
f. TXT x59543
f. TXT x59544
f. TXT x59545
f. TXT x59546
f. TXT x59547
f. TXT x59548
f. TXT x59549
f. TXT x59550
f. TXT x59551
f. TXT x59552
f. TXT x59553
f. TXT x59554
f. TXT x59555
f. TXT x59556
f. TXT x59557
f. TXT x59558
f. TXT x59559
f. TXT x59560
f. TXT x59561
f. TXT x59562
f. TXT x59563
f. TXT x59564
f. TXT x59565
f. TXT x59566
f. TXT x59567
f. TXT x59568
f. TXT x59569
f. TXT x59570
f. TXT x59571
f. TXT x59572
f. TXT x59573
f. TXT x59574
f. TXT x59575
f. TXT x59576
f. TXT x59577
f. TXT x59578
f. TXT x59579
f. TXT x59580
f. TXT x59581
f. TXT x59582
f. TXT x59583
zccy.xb. TXT bcz zbxa 0y
f. TXT x59585
f. TXT x59586
f. TXT x59587
f. TXT x59588
f. TXT x59589
f. TXT x59590
f. TXT x59591
f. TXT x59592
f. TXT x59593
f. TXT x59594
f. TXT x59595
f. TXT x59596
f. TXT x59597
f. TXT x59598
f. TXT x59599
f. TXT x59600
f. TXT x59601
f. TXT x59602
f. TXT x59603
f. TXT x59604
f. TXT x59605
f. TXT x59606
f. TXT x59607
f. TXT x59608
f. TXT x59609
f. TXT x59610
f. TXT x59611
f. TXT x59612
f. TXT x59613
f. TXT x59614
f. TXT x59615
f. TXT x59616
f. TXT x59617
f. TXT x59618
f. TXT x59619
f. TXT x59620
f. TXT x59621
f. TXT x59622
f. TXT x59623
f. TXT x59624
f. TXT x59625
f. TXT x59626
f. TXT x59627
f. TXT x59628
f. TXT x59629
f. TXT x59630
f. TXT x59631
f. TXT x59632
f. TXT x59633
f. TXT x59634
f. TXT x59635
f. TXT x59636
f. TXT x59637
f. TXT x59638
f. TXT x59639
f. TXT x59640
f. TXT x59641
f. TXT x59642
f. TXT x59643
f. TXT x59644
f. TXT x59645
f. TXT x59646
f. TXT x59647
xb.cb-. TXT 0* 0y
f. TXT x59649
f. TXT x59650
f. TXT x59651
f. TXT x59652
f. TXT x59653
f. TXT x59654
f. TXT x59655
f. TXT x59656
f. TXT x59657
f. TXT x59658
f. TXT x59659
f. TXT x59660
f. TXT x59661
f. TXT x59662
f. TXT x59663
f. TXT x59664
f. TXT x59665
f. TXT x59666
f. TXT x59667
f. TXT x59668
f. TXT x59669
f. TXT x59670
f. TXT x59671
f. TXT x59672
f. TXT x59673
f. TXT x59674
f. TXT x59675
f. TXT x59676
f. TXT x59677
f. TXT x59678
f. TXT x59679
f. TXT x59680
f. TXT x59681
f. TXT x59682
f. TXT x59683
f. TXT x59684
f. TXT x59685
f. TXT x59686
f. TXT x59687
f. TXT x59688
f. TXT x59689
f. TXT x59690
f. TXT x59691
f. TXT x59692
f. TXT x59693
f. TXT x59694
f. TXT x59695
f. TXT x59696
f. TXT x59697
f. TXT x59698
f. TXT x59699
f. TXT x59700
f. TXT x59701
f. TXT x59702
f. TXT x59703
f. TXT x59704
f. TXT x59705
f. TXT x59706
f. TXT x59707
f. TXT x59708
f. TXT x59709
f. TXT x59710
f. TXT x59711
0.*bxc. NS -x0a
f. TXT x59713
f. TXT x59714
f. TXT x59715
f. TXT x59716
f. TXT x59717
f. TXT x59718
f. TXT x59719
f. TXT x59720
f. TXT x59721
f. TXT x59722
f. TXT x59723
f. TXT x59724
f. TXT x59725
f. TXT x59726
f. TXT x59727
f. TXT x59728
f. TXT x59729
f. TXT x59730
f. TXT x59731
f. TXT x59732
f. TXT x59733
f. TXT x59734
f. TXT x59735
f. TXT x59736
f. TXT x59737
f. TXT x59738
f. TXT x59739
f. TXT x59740
f. TXT x59741
f. TXT x59742
f. TXT x59743
f. TXT x59744
f. TXT x59745
f. TXT x59746
f. TXT x59747
f. TXT x59748
f. TXT x59749
f. TXT x59750
f. TXT x59751
f. TXT x59752
f. TXT x59753
f. TXT x59754
f. TXT x59755
f. TXT x59756
f. TXT x59757
f. TXT x59758
f. TXT x59759
f. TXT x59760
f. TXT x59761
f. TXT x59762
f. TXT x59763
f. TXT x59764
f. TXT x59765
f. TXT x59766
f. TXT x59767
f. TXT x59768
f. TXT x59769
f. TXT x59770
f. TXT x59771
f. TXT x59772
f. TXT x59773
f. TXT x59774
f. TXT x59775
zac A c z b*yz
f. TXT x59777
f. TXT x59778
f. TXT x59779
f. TXT x59780
f. TXT x59781
f. TXT x59782
f. TXT x59783
f. TXT x59784
f. TXT x59785
f. TXT x59786
f. TXT x59787
f. TXT x59788
f. TXT x59789
f. TXT x59790
f. TXT x59791
f. TXT x59792
f. TXT x59793
f. TXT x59794
f. TXT x59795
f. TXT x59796
f. TXT x59797
f. TXT x59798
f. TXT x59799
f. TXT x59800
f. TXT x59801
f. TXT x59802
f. TXT x59803
f. TXT x59804
f. TXT x59805
f. TXT x59806
f. TXT x59807
f. TXT x59808
f. TXT x59809
f. TXT x59810
f. TXT x59811
f. TXT x59812
f. TXT x59813
f. TXT x59814
f. TXT x59815
f. TXT x59816
f. TXT x59817
f. TXT x59818
f. TXT x59819
f. TXT x59820
f. TXT x59821
f. TXT x59822
f. TXT x59823
f. TXT x59824
f. TXT x59825
f. TXT x59826
f. TXT x59827
f. TXT x59828
f. TXT x59829
f. TXT x59830
f. TXT x59831
f. TXT x59832
f. TXT x59833
f. TXT x59834
f. TXT x59835
f. TXT x59836
f. TXT x59837
f. TXT x59838
f. TXT x59839
@ A 0ax
f. TXT x59841
f. TXT x59842
f. TXT x59843
f. TXT x59844
f. TXT x59845
f. TXT x59846
f. TXT x59847
f. TXT x59848
f. TXT x59849
f. TXT x59850
f. TXT x59851
f. TXT x59852
f. TXT x59853
f. TXT x59854
f. TXT x59855
f. TXT x59856
f. TXT x59857
f. TXT x59858
f. TXT x59859
f. TXT x59860
f. TXT x59861
f. TXT x59862
f. TXT x59863
f. TXT x59864
f. TXT x59865
f. TXT x59866
f. TXT x59867
f. TXT x59868
f. TXT x59869
f. TXT x59870
f. TXT x59871
f. TXT x59872
f. TXT x59873
f. TXT x59874
f. TXT x59875
f. TXT x59876
f. TXT x59877
f. TXT x59878
f. TXT x59879
f. TXT x59880
f. TXT x59881
f. TXT x59882
f. TXT x59883
f. TXT x59884
f. TXT x59885
f. TXT x59886
f. TXT x59887
f. TXT x59888
f. TXT x59889
f. TXT x59890
f. TXT x59891
f. TXT x59892
f. TXT x59893
f. TXT x59894
f. TXT x59895
f. TXT x59896
f. TXT x59897
f. TXT x59898
f. TXT x59899
f. TXT x59900
f. TXT x59901
f. TXT x59902
f. TXT x59903
 TXT --* *
f. TXT x59905
f. TXT x59906
f. TXT x59907
f. TXT x59908
f. TXT x59909
f. TXT x59910
f. TXT x59911
f. TXT x59912
f. TXT x59913
f. TXT x59914
f. TXT x59915
f. TXT x59916
f. TXT x59917
f. TXT x59918
f. TXT x59919
f. TXT x59920
f. TXT x59921
f. TXT x59922
f. TXT x59923
f. TXT x59924
f. TXT x59925
f. TXT x59926
f. TXT x59927
f. TXT x59928
f. TXT x59929
f. TXT x59930
f. TXT x59931
f. TXT x59932
f. TXT x59933
f. TXT x59934
f. TXT x59935
f. TXT x59936
f. TXT x59937
f. TXT x59938
f. TXT x59939
f. TXT x59940
f. TXT x59941
f. TXT x59942
f. TXT x59943
f. TXT x59944
f. TXT x59945
f. TXT x59946
f. TXT x59947
f. TXT x59948
f. TXT x59949
f. TXT x59950
f. TXT x59951
f. TXT x59952
f. TXT x59953
f. TXT x59954
f. TXT x59955
f. TXT x59956
f. TXT x59957
f. TXT x59958
f. TXT x59959
f. TXT x59960
f. TXT x59961
f. TXT x59962
f. TXT x59963
f. TXT x59964
f. TXT x59965
f. TXT x59966
f. TXT x59967
@ A a
f. TXT x59969
f. TXT x59970
f. TXT x59971
f. TXT x59972
f. TXT x59973
f. TXT x59974
f. TXT x59975
f. TXT x59976
f. TXT x59977
f. TXT x59978
f. TXT x59979
f. TXT x59980
f. TXT x59981
f. TXT x59982
f. TXT x59983
f. TXT x59984
f. TXT x59985
f. TXT x59986
f. TXT x59987
f. TXT x59988
f. TXT x59989
f. TXT x59990
f. TXT x59991
f. TXT x59992
f. TXT x59993
f. TXT x59994
f. TXT x59995
f. TXT x59996
f. TXT x59997
f. TXT x59998
f. TXT x59999
f. TXT x60000
f. TXT x60001
f. TXT x60002
f. TXT x60003
f. TXT x60004
f. TXT x60005
f. TXT x60006
f. TXT x60007
f. TXT x60008
f. TXT x60009
f. TXT x60010
f. TXT x60011
f. TXT x60012
f. TXT x60013
f. TXT x60014
f. TXT x60015
f. TXT x60016
f. TXT x60017
f. TXT x60018
f. TXT x60019
f. TXT x60020
f. TXT x60021
f. TXT x60022
f. TXT x60023
f. TXT x60024
f. TXT x60025
f. TXT x60026
f. TXT x60027
f. TXT x60028
f. TXT x60029
f. TXT x60030
f. TXT x60031
-0 NS cxcx a a00b
f. TXT x60033
f. TXT x60034
f. TXT x60035
f. TXT x60036
f. TXT x60037
f. TXT x60038
f. TXT x60039
f. TXT x60040
f. TXT x60041
f. TXT x60042
f. TXT x60043
f. TXT x60044
f. TXT x60045
f. TXT x60046
f. TXT x60047
f. TXT x60048
f. TXT x60049
f. TXT x60050
f. TXT x60051
f. TXT x60052
f. TXT x60053
f. TXT x60054
f. TXT x60055
f. TXT x60056
f. TXT x60057
f. TXT x60058
f. TXT x60059
f. TXT x60060
f. TXT x60061
f. TXT x60062
f. TXT x60063
f. TXT x60064
f. TXT x60065
f. TXT x60066
f. TXT x60067
f. TXT x60068
f. TXT x60069
f. TXT x60070
f. TXT x60071
f. TXT x60072
f. TXT x60073
f. TXT x60074
f. TXT x60075
f. TXT x60076
f. TXT x60077
f. TXT x60078
f. TXT x60079
f. TXT x60080
f. TXT x60081
f. TXT x60082
f. TXT x60083
f. TXT x60084
f. TXT x60085
f. TXT x60086
f. TXT x60087
f. TXT x60088
f. TXT x60089
f. TXT x60090
f. TXT x60091
f. TXT x60092
f. TXT x60093
f. TXT x60094
f. TXT x60095

f. TXT x60097
f. TXT x60098
f. TXT x60099
f. TXT x60100
f. TXT x60101
f. TXT x60102
f. TXT x60103
f. TXT x60104
f. TXT x60105
f. TXT x60106
f. TXT x60107
f. TXT x60108
f. TXT x60109
f. TXT x60110
f. TXT x60111
f. TXT x60112
f. TXT x60113
f. TXT x60114
f. TXT x60115
f. TXT x60116
f. TXT x60117
f. TXT x60118
f. TXT x60119
f. TXT x60120
f. TXT x60121
f. TXT x60122
f. TXT x60123
f. TXT x60124
f. TXT x60125
f. TXT x60126
f. TXT x60127
f. TXT x60128
f. TXT x60129
f. TXT x60130
f. TXT x60131
f. TXT x60132
f. TXT x60133
f. TXT x60134
f. TXT x60135
f. TXT x60136
f. TXT x60137
f. TXT x60138
f. TXT x60139
f. TXT x60140
f. TXT x60141
f. TXT x60142
f. TXT x60143
f. TXT x60144
f. TXT x60145
f. TXT x60146
f. TXT x60147
f. TXT x60148
f. TXT x60149
f. TXT x60150
f. TXT x60151
f. TXT x60152
f. TXT x60153
f. TXT x60154
f. TXT x60155
f. TXT x60156
f. TXT x60157
f. TXT x60158
f. TXT x60159
$ORIGIN c.
f. TXT x60161
f. TXT x60162
f. TXT x60163
f. TXT x60164
f. TXT x60165
f. TXT x60166
f. TXT x60167
f. TXT x60168
f. TXT x60169
f. TXT x60170
f. TXT x60171
f. TXT x60172
f. TXT x60173
f. TXT x60174
f. TXT x60175
f. TXT x60176
f. TXT x60177
f. TXT x60178
f. TXT x60179
f. TXT x60180
f. TXT x60181
f. TXT x60182
f. TXT x60183
f. TXT x60184
f. TXT x60185
f. TXT x60186
f. TXT x60187
f. TXT x60188
f. TXT x60189
f. TXT x60190
f. TXT x60191
f. TXT x60192
f. TXT x60193
f. TXT x60194
f. TXT x60195
f. TXT x60196
f. TXT x60197
f. TXT x60198
f. TXT x60199
f. TXT x60200
f. TXT x60201
f. TXT x60202
f. TXT x60203
f. TXT x60204
f. TXT x60205
f. TXT x60206
f. TXT x60207
f. TXT x60208
f. TXT x60209
f. TXT x60210
f. TXT x60211
f. TXT x60212
f. TXT x60213
f. TXT x60214
f. TXT x60215
f. TXT x60216
f. TXT x60217
f. TXT x60218
f. TXT x60219
f. TXT x60220
f. TXT x60221
f. TXT x60222
f. TXT x60223
$ORIGIN c.*c.
f. TXT x60225
f. TXT x60226
f. TXT x60227
f. TXT x60228
f. TXT x60229
f. TXT x60230
f. TXT x60231
f. TXT x60232
f. TXT x60233
f. TXT x60234
f. TXT x60235
f. TXT x60236
f. TXT x60237
f. TXT x60238
f. TXT x60239
f. TXT x60240
f. TXT x60241
f. TXT x60242
f. TXT x60243
f. TXT x60244
f. TXT x60245
f. TXT x60246
f. TXT x60247
f. TXT x60248
f. TXT x60249
f. TXT x60250
f. TXT x60251
f. TXT x60252
f. TXT x60253
f. TXT x60254
f. TXT x60255
f. TXT x60256
f. TXT x60257
f. TXT x60258
f. TXT x60259
f. TXT x60260
f. TXT x60261
f. TXT x60262
f. TXT x60263
f. TXT x60264
f. TXT x60265
f. TXT x60266
f. TXT x60267
f. TXT x60268
f. TXT x60269
f. TXT x60270
f. TXT x60271
f. TXT x60272
f. TXT x60273
f. TXT x60274
f. TXT x60275
f. TXT x60276
f. TXT x60277
f. TXT x60278
f. TXT x60279
f. TXT x60280
f. TXT x60281
f. TXT x60282
f. TXT x60283
f. TXT x60284
f. TXT x60285
f. TXT x60286
f. TXT x60287
; c-
f. TXT x60289
f. TXT x60290
f. TXT x60291
f. TXT x60292
f. TXT x60293
f. TXT x60294
f. TXT x60295
f. TXT x60296
f. TXT x60297
f. TXT x60298
f. TXT x60299
f. TXT x60300
f. TXT x60301
f. TXT x60302
f. TXT x60303
f. TXT x60304
f. TXT x60305
f. TXT x60306
f. TXT x60307
f. TXT x60308
f. TXT x60309
f. TXT x60310
f. TXT x60311
f. TXT x60312
f. TXT x60313
f. TXT x60314
f. TXT x60315
f. TXT x60316
f. TXT x60317
f. TXT x60318
f. TXT x60319
f. TXT x60320
f. TXT x60321
f. TXT x60322
f. TXT x60323
f. TXT x60324
f. TXT x60325
f. TXT x60326
f. TXT x60327
f. TXT x60328
f. TXT x60329
f. TXT x60330
f. TXT x60331
f. TXT x60332
f. TXT x60333
f. TXT x60334
f. TXT x60335
f. TXT x60336
f. TXT x60337
f. TXT x60338
f. TXT x60339
f. TXT x60340
f. TXT x60341
f. TXT x60342
f. TXT x60343
f. TXT x60344
f. TXT x60345
f. TXT x60346
f. TXT x60347
f. TXT x60348
f. TXT x60349
f. TXT x60350
f. TXT x60351
*bya. TXT 0y z
f. TXT x60353
f. TXT x60354
f. TXT x60355
f. TXT x60356
f. TXT x60357
f. TXT x60358
f. TXT x60359
f. TXT x60360
f. TXT x60361
f. TXT x60362
f. TXT x60363
f. TXT x60364
f. TXT x60365
f. TXT x60366
f. TXT x60367
f. TXT x60368
f. TXT x60369
f. TXT x60370
f. TXT x60371
f. TXT x60372
f. TXT x60373
f. TXT x60374
f. TXT x60375
f. TXT x60376
f. TXT x60377
f. TXT x60378
f. TXT x60379
f. TXT x60380
f. TXT x60381
f. TXT x60382
f. TXT x60383
f. TXT x60384
f. TXT x60385
f. TXT x60386
f. TXT x60387
f. TXT x60388
f. TXT x60389
f. TXT x60390
f. TXT x60391
f. TXT x60392
f. TXT x60393
f. TXT x60394
f. TXT x60395
f. TXT x60396
f. TXT x60397
f. TXT x60398
f. TXT x60399
f. TXT x60400
f. TXT x60401
f. TXT x60402
f. TXT x60403
f. TXT x60404
f. TXT x60405
f. TXT x60406
f. TXT x60407
f. TXT x60408
f. TXT x60409
f. TXT x60410
f. TXT x60411
f. TXT x60412
f. TXT x60413
f. TXT x60414
f. TXT x60415
 TXT cc-y * yaxz
f. TXT x60417
f. TXT x60418
f. TXT x60419
f. TXT x60420
f. TXT x60421
f. TXT x60422
f. TXT x60423
f. TXT x60424
f. TXT x60425
f. TXT x60426
f. TXT x60427
f. TXT x60428
f. TXT x60429
f. TXT x60430
f. TXT x60431
f. TXT x60432
f. TXT x60433
f. TXT x60434
f. TXT x60435
f. TXT x60436
f. TXT x60437
f. TXT x60438
f. TXT x60439
f. TXT x60440
f. TXT x60441
f. TXT x60442
f. TXT x60443
f. TXT x60444
f. TXT x60445
f. TXT x60446
f. TXT x60447
f. TXT x60448
f. TXT x60449
f. TXT x60450
f. TXT x60451
f. TXT x60452
f. TXT x60453
f. TXT x60454
f. TXT x60455
f. TXT x60456
f. TXT x60457
f. TXT x60458
f. TXT x60459
f. TXT x60460
f. TXT x60461
f. TXT x60462
f. TXT x60463
f. TXT x60464
f. TXT x60465
f. TXT x60466
f. TXT x60467
f. TXT x60468
f. TXT x60469
f. TXT x60470
f. TXT x60471
f. TXT x60472
f. TXT x60473
f. TXT x60474
f. TXT x60475
f. TXT x60476
f. TXT x60477
f. TXT x60478
f. TXT x60479
 A c-c -0
f. TXT x60481
f. TXT x60482
f. TXT x60483
f. TXT x60484
f. TXT x60485
f. TXT x60486
f. TXT x60487
f. TXT x60488
f. TXT x60489
f. TXT x60490
f. TXT x60491
f. TXT x60492
f. TXT x60493
f. TXT x60494
f. TXT x60495
f. TXT x60496
f. TXT x60497
f. TXT x60498
f. TXT x60499
f. TXT x60500
f. TXT x60501
f. TXT x60502
f. TXT x60503
f. TXT x60504
f. TXT x60505
f. TXT x60506
f. TXT x60507
f. TXT x60508
f. TXT x60509
f. TXT x60510
f. TXT x60511
f. TXT x60512
f. TXT x60513
f. TXT x60514
f. TXT x60515
f. TXT x60516
f. TXT x60517
f. TXT x60518
f. TXT x60519
f. TXT x60520
f. TXT x60521
f. TXT x60522
f. TXT x60523
f. TXT x60524
f. TXT x60525
f. TXT x60526
f. TXT x60527
f. TXT x60528
f. TXT x60529
f. TXT x60530
f. TXT x60531
f. TXT x60532
f. TXT x60533
f. TXT x60534
f. TXT x60535
f. TXT x60536
f. TXT x60537
f. TXT x60538
f. TXT x60539
f. TXT x60540
f. TXT x60541
f. TXT x60542
f. TXT x60543
 NS ac- cyc0
f. TXT x60545
f. TXT x60546
f. TXT x60547
f. TXT x60548
f. TXT x60549
f. TXT x60550
f. TXT x60551
f. TXT x60552
f. TXT x60553
f. TXT x60554
f. TXT x60555
f. TXT x60556
f. TXT x60557
f. TXT x60558
f. TXT x60559
f. TXT x60560
f. TXT x60561
f. TXT x60562
f. TXT x60563
f. TXT x60564
f. TXT x60565
f. TXT x60566
f. TXT x60567
f. TXT x60568
f. TXT x60569
f. TXT x60570
f. TXT x60571
f. TXT x60572
f. TXT x60573
f. TXT x60574
f. TXT x60575
f. TXT x60576
f. TXT x60577
f. TXT x60578
f. TXT x60579
f. TXT x60580
f. TXT x60581
f. TXT x60582
f. TXT x60583
f. TXT x60584
f. TXT x60585
f. TXT x60586
f. TXT x60587
f. TXT x60588
f. TXT x60589
f. TXT x60590
f. TXT x60591
f. TXT x60592
f. TXT x60593
f. TXT x60594
f. TXT x60595
f. TXT x60596
f. TXT x60597
f. TXT x60598
f. TXT x60599
f. TXT x60600
f. TXT x60601
f. TXT x60602
f. TXT x60603
f. TXT x60604
f. TXT x60605
f. TXT x60606
f. TXT x60607
$ORIGIN *.azxa.
f. TXT x60609
f. TXT x60610
f. TXT x60611
f. TXT x60612
f. TXT x60613
f. TXT x60614
f. TXT x60615
f. TXT x60616
f. TXT x60617
f. TXT x60618
f. TXT x60619
f. TXT x60620
f. TXT x60621
f. TXT x60622
f. TXT x60623
f. TXT x60624
f. TXT x60625
f. TXT x60626
f. TXT x60627
f. TXT x60628
f. TXT x60629
f. TXT x60630
f. TXT x60631
f. TXT x60632
f. TXT x60633
f. TXT x60634
f. TXT x60635
f. TXT x60636
f. TXT x60637
f. TXT x60638
f. TXT x60639
f. TXT x60640
f. TXT x60641
f. TXT x60642
f. TXT x60643
f. TXT x60644
f. TXT x60645
f. TXT x60646
f. TXT x60647
f. TXT x60648
f. TXT x60649
f. TXT x60650
f. TXT x60651
f. TXT x60652
f. TXT x60653
f. TXT x60654
f. TXT x60655
f. TXT x60656
f. TXT x60657
f. TXT x60658
f. TXT x60659
f. TXT x60660
f. TXT x60661
f. TXT x60662
f. TXT x60663
f. TXT x60664
f. TXT x60665
f. TXT x60666
f. TXT x60667
f. TXT x60668
f. TXT x60669
f. TXT x60670
f. TXT x60671
*y. A x ycxy 0a*a
f. TXT x60673
f. TXT x60674
f. TXT x60675
f. TXT x60676
f. TXT x60677
f. TXT x60678
f. TXT x60679
f. TXT x60680
f. TXT x60681
f. TXT x60682
f. TXT x60683
f. TXT x60684
f. TXT x60685
f. TXT x60686
f. TXT x60687
f. TXT x60688
f. TXT x60689
f. TXT x60690
f. TXT x60691
f. TXT x60692
f. TXT x60693
f. TXT x60694
f. TXT x60695
f. TXT x60696
f. TXT x60697
f. TXT x60698
f. TXT x60699
f. TXT x60700
f. TXT x60701
f. TXT x60702
f. TXT x60703
f. TXT x60704
f. TXT x60705
f. TXT x60706
f. TXT x60707
f. TXT x60708
f. TXT x60709
f. TXT x60710
f. TXT x60711
f. TXT x60712
f. TXT x60713
f. TXT x60714
f. TXT x60715
f. TXT x60716
f. TXT x60717
f. TXT x60718
f. TXT x60719
f. TXT x60720
f. TXT x60721
f. TXT x60722
f. TXT x60723
f. TXT x60724
f. TXT x60725
f. TXT x60726
f. TXT x60727
f. TXT x60728
f. TXT x60729
f. TXT x60730
f. TXT x60731
f. TXT x60732
f. TXT x60733
f. TXT x60734
f. TXT x60735
- NS -0x
f. TXT x60737
f. TXT x60738
f. TXT x60739
f. TXT x60740
f. TXT x60741
f. TXT x60742
f. TXT x60743
f. TXT x60744
f. TXT x60745
f. TXT x60746
f. TXT x60747
f. TXT x60748
f. TXT x60749
f. TXT x60750
f. TXT x60751
f. TXT x60752
f. TXT x60753
f. TXT x60754
f. TXT x60755
f. TXT x60756
f. TXT x60757
f. TXT x60758
f. TXT x60759
f. TXT x60760
f. TXT x60761
f. TXT x60762
f. TXT x60763
f. TXT x60764
f. TXT x60765
f. TXT x60766
f. TXT x60767
f. TXT x60768
f. TXT x60769
f. TXT x60770
f. TXT x60771
f. TXT x60772
f. TXT x60773
f. TXT x60774
f. TXT x60775
f. TXT x60776
f. TXT x60777
f. TXT x60778
f. TXT x60779
f. TXT x60780
f. TXT x60781
f. TXT x60782
f. TXT x60783
f. TXT x60784
f. TXT x60785
f. TXT x60786
f. TXT x60787
f. TXT x60788
f. TXT x60789
f. TXT x60790
f. TXT x60791
f. TXT x60792
f. TXT x60793
f. TXT x60794
f. TXT x60795
f. TXT x60796
f. TXT x60797
f. TXT x60798
f. TXT x60799
 A 0y-0 y**
f. TXT x60801
f. TXT x60802
f. TXT x60803
f. TXT x60804
f. TXT x60805
f. TXT x60806
f. TXT x60807
f. TXT x60808
f. TXT x60809
f. TXT x60810
f. TXT x60811
f. TXT x60812
f. TXT x60813
f. TXT x60814
f. TXT x60815
f. TXT x60816
f. TXT x60817
f. TXT x60818
f. TXT x60819
f. TXT x60820
f. TXT x60821
f. TXT x60822
f. TXT x60823
f. TXT x60824
f. TXT x60825
f. TXT x60826
f. TXT x60827
f. TXT x60828
f. TXT x60829
f. TXT x60830
f. TXT x60831
f. TXT x60832
f. TXT x60833
f. TXT x60834
f. TXT x60835
f. TXT x60836
f. TXT x60837
f. TXT x60838
f. TXT x60839
f. TXT x60840
f. TXT x60841
f. TXT x60842
f. TXT x60843
f. TXT x60844
f. TXT x60845
f. TXT x60846
f. TXT x60847
f. TXT x60848
f. TXT x60849
f. TXT x60850
f. TXT x60851
f. TXT x60852
f. TXT x60853
f. TXT x60854
f. TXT x60855
f. TXT x60856
f. TXT x60857
f. TXT x60858
f. TXT x60859
f. TXT x60860
f. TXT x60861
f. TXT x60862
f. TXT x60863
z0 NS b *z cc
f. TXT x60865
f. TXT x60866
f. TXT x60867
f. TXT x60868
f. TXT x60869
f. TXT x60870
f. TXT x60871
f. TXT x60872
f. TXT x60873
f. TXT x60874
f. TXT x60875
f. TXT x60876
f. TXT x60877
f. TXT x60878
f. TXT x60879
f. TXT x60880
f. TXT x60881
f. TXT x60882
f. TXT x60883
f. TXT x60884
f. TXT x60885
f. TXT x60886
f. TXT x60887
f. TXT x60888
f. TXT x60889
f. TXT x60890
f. TXT x60891
f. TXT x60892
f. TXT x60893
f. TXT x60894
f. TXT x60895
f. TXT x60896
f. TXT x60897
f. TXT x60898
f. TXT x60899
f. TXT x60900
f. TXT x60901
f. TXT x60902
f. TXT x60903
f. TXT x60904
f. TXT x60905
f. TXT x60906
f. TXT x60907
f. TXT x60908
f. TXT x60909
f. TXT x60910
f. TXT x60911
f. TXT x60912
f. TXT x60913
f. TXT x60914
f. TXT x60915
f. TXT x60916
f. TXT x60917
f. TXT x60918
f. TXT x60919
f. TXT x60920
f. TXT x60921
f. TXT x60922
f. TXT x60923
f. TXT x60924
f. TXT x60925
f. TXT x60926
f. TXT x60927
x0a TXT cc
f. TXT x60929
f. TXT x60930
f. TXT x60931
f. TXT x60932
f. TXT x60933
f. TXT x60934
f. TXT x60935
f. TXT x60936
f. TXT x60937
f. TXT x60938
f. TXT x60939
f. TXT x60940
f. TXT x60941
f. TXT x60942
f. TXT x60943
f. TXT x60944
f. TXT x60945
f. TXT x60946
f. TXT x60947
f. TXT x60948
f. TXT x60949
f. TXT x60950
f. TXT x60951
f. TXT x60952
f. TXT x60953
f. TXT x60954
f. TXT x60955
f. TXT x60956
f. TXT x60957
f. TXT x60958
f. TXT x60959
f. TXT x60960
f. TXT x60961
f. TXT x60962
f. TXT x60963
f. TXT x60964
f. TXT x60965
f. TXT x60966
f. TXT x60967
f. TXT x60968
f. TXT x60969
f. TXT x60970
f. TXT x60971
f. TXT x60972
f. TXT x60973
f. TXT x60974
f. TXT x60975
f. TXT x60976
f. TXT x60977
f. TXT x60978
f. TXT x60979
f. TXT x60980
f. TXT x60981
f. TXT x60982
f. TXT x60983
f. TXT x60984
f. TXT x60985
f. TXT x60986
f. TXT x60987
f. TXT x60988
f. TXT x60989
f. TXT x60990
f. TXT x60991
yc A zz
f. TXT x60993
f. TXT x60994
f. TXT x60995
f. TXT x60996
f. TXT x60997
f. TXT x60998
f. TXT x60999
f. TXT x61000
f. TXT x61001
f. TXT x61002
f. TXT x61003
f. TXT x61004
f. TXT x61005
f. TXT x61006
f. TXT x61007
f. TXT x61008
f. TXT x61009
f. TXT x61010
f. TXT x61011
f. TXT x61012
f. TXT x61013
f. TXT x61014
f. TXT x61015
f. TXT x61016
f. TXT x61017
f. TXT x61018
f. TXT x61019
f. TXT x61020
f. TXT x61021
f. TXT x61022
f. TXT x61023
f. TXT x61024
f. TXT x61025
f. TXT x61026
f. TXT x61027
f. TXT x61028
f. TXT x61029
f. TXT x61030
f. TXT x61031
f. TXT x61032
f. TXT x61033
f. TXT x61034
f. TXT x61035
f. TXT x61036
f. TXT x61037
f. TXT x61038
f. TXT x61039
f. TXT x61040
f. TXT x61041
f. TXT x61042
f. TXT x61043
f. TXT x61044
f. TXT x61045
f. TXT x61046
f. TXT x61047
f. TXT x61048
f. TXT x61049
f. TXT x61050
f. TXT x61051
f. TXT x61052
f. TXT x61053
f. TXT x61054
f. TXT x61055
 TXT z a
f. TXT x61057
f. TXT x61058
f. TXT x61059
f. TXT x61060
f. TXT x61061
f. TXT x61062
f. TXT x61063
f. TXT x61064
f. TXT x61065
f. TXT x61066
f. TXT x61067
f. TXT x61068
f. TXT x61069
f. TXT x61070
f. TXT x61071
f. TXT x61072
f. TXT x61073
f. TXT x61074
f. TXT x61075
f. TXT x61076
f. TXT x61077
f. TXT x61078
f. TXT x61079
f. TXT x61080
f. TXT x61081
f. TXT x61082
f. TXT x61083
f. TXT x61084
f. TXT x61085
f. TXT x61086
f. TXT x61087
f. TXT x61088
f. TXT x61089
f. TXT x61090
f. TXT x61091
f. TXT x61092
f. TXT x61093
f. TXT x61094
f. TXT x61095
f. TXT x61096
f. TXT x61097
f. TXT x61098
f. TXT x61099
f. TXT x61100
f. TXT x61101
f. TXT x61102
f. TXT x61103
f. TXT x61104
f. TXT x61105
f. TXT x61106
f. TXT x61107
f. TXT x61108
f. TXT x61109
f. TXT x61110
f. TXT x61111
f. TXT x61112
f. TXT x61113
f. TXT x61114
f. TXT x61115
f. TXT x61116
f. TXT x61117
f. TXT x61118
f. TXT x61119
; -z-
f. TXT x61121
f. TXT x61122
f. TXT x61123
f. TXT x61124
f. TXT x61125
f. TXT x61126
f. TXT x61127
f. TXT x61128
f. TXT x61129
f. TXT x61130
f. TXT x61131
f. TXT x61132
f. TXT x61133
f. TXT x61134
f. TXT x61135
f. TXT x61136
f. TXT x61137
f. TXT x61138
f. TXT x61139
f. TXT x61140
f. TXT x61141
f. TXT x61142
f. TXT x61143
f. TXT x61144
f. TXT x61145
f. TXT x61146
f. TXT x61147
f. TXT x61148
f. TXT x61149
f. TXT x61150
f. TXT x61151
f. TXT x61152
f. TXT x61153
f. TXT x61154
f. TXT x61155
f. TXT x61156
f. TXT x61157
f. TXT x61158
f. TXT x61159
f. TXT x61160
f. TXT x61161
f. TXT x61162
f. TXT x61163
f. TXT x61164
f. TXT x61165
f. TXT x61166
f. TXT x61167
f. TXT x61168
f. TXT x61169
f. TXT x61170
f. TXT x61171
f. TXT x61172
f. TXT x61173
f. TXT x61174
f. TXT x61175
f. TXT x61176
f. TXT x61177
f. TXT x61178
f. TXT x61179
f. TXT x61180
f. TXT x61181
f. TXT x61182
f. TXT x61183
@ A yz*
f. TXT x61185
f. TXT x61186
f. TXT x61187
f. TXT x61188
f. TXT x61189
f. TXT x61190
f. TXT x61191
f. TXT x61192
f. TXT x61193
f. TXT x61194
f. TXT x61195
f. TXT x61196
f. TXT x61197
f. TXT x61198
f. TXT x61199
f. TXT x61200
f. TXT x61201
f. TXT x61202
f. TXT x61203
f. TXT x61204
f. TXT x61205
f. TXT x61206
f. TXT x61207
f. TXT x61208
f. TXT x61209
f. TXT x61210
f. TXT x61211
f. TXT x61212
f. TXT x61213
f. TXT x61214
f. TXT x61215
f. TXT x61216
f. TXT x61217
f. TXT x61218
f. TXT x61219
f. TXT x61220
f. TXT x61221
f. TXT x61222
f. TXT x61223
f. TXT x61224
f. TXT x61225
f. TXT x61226
f. TXT x61227
f. TXT x61228
f. TXT x61229
f. TXT x61230
f. TXT x61231
f. TXT x61232
f. TXT x61233
f. TXT x61234
f. TXT x61235
f. TXT x61236
f. TXT x61237
f. TXT x61238
f. TXT x61239
f. TXT x61240
f. TXT x61241
f. TXT x61242
f. TXT x61243
f. TXT x61244
f. TXT x61245
f. TXT x61246
f. TXT x61247
@ TXT vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv ycc*
f. TXT x61249
f. TXT x61250
f. TXT x61251
f. TXT x61252
f. TXT x61253
f. TXT x61254
f. TXT x61255
f. TXT x61256
f. TXT x61257
f. TXT x61258
f. TXT x61259
f. TXT x61260
f. TXT x61261
f. TXT x61262
f. TXT x61263
f. TXT x61264
f. TXT x61265
f. TXT x61266
f. TXT x61267
f. TXT x61268
f. TXT x61269
f. TXT x61270
f. TXT x61271
f. TXT x61272
f. TXT x61273
f. TXT x61274
f. TXT x61275
f. TXT x61276
f. TXT x61277
f. TXT x61278
f. TXT x61279
f. TXT x61280
f. TXT x61281
f. TXT x61282
f. TXT x61283
f. TXT x61284
f. TXT x61285
f. TXT x61286
f. TXT x61287
f. TXT x61288
f. TXT x61289
f. TXT x61290
f. TXT x61291
f. TXT x61292
f. TXT x61293
f. TXT x61294
f. TXT x61295
f. TXT x61296
f. TXT x61297
f. TXT x61298
f. TXT x61299
f. TXT x61300
f. TXT x61301
f. TXT x61302
f. TXT x61303
f. TXT x61304
f. TXT x61305
f. TXT x61306
f. TXT x61307
f. TXT x61308
f. TXT x61309
f. TXT x61310
f. TXT x61311
@ TXT zy-c a
f. TXT x61313
f. TXT x61314
f. TXT x61315
f. TXT x61316
f. TXT x61317
f. TXT x61318
f. TXT x61319
f. TXT x61320
f. TXT x61321
f. TXT x61322
f. TXT x61323
f. TXT x61324
f. TXT x61325
f. TXT x61326
f. TXT x61327
f. TXT x61328
f. TXT x61329
f. TXT x61330
f. TXT x61331
f. TXT x61332
f. TXT x61333
f. TXT x61334
f. TXT x61335
f. TXT x61336
f. TXT x61337
f. TXT x61338
f. TXT x61339
f. TXT x61340
f. TXT x61341
f. TXT x61342
f. TXT x61343
f. TXT x61344
f. TXT x61345
f. TXT x61346
f. TXT x61347
f. TXT x61348
f. TXT x61349
f. TXT x61350
f. TXT x61351
f. TXT x61352
f. TXT x61353
f. TXT x61354
f. TXT x61355
f. TXT x61356
f. TXT x61357
f. TXT x61358
f. TXT x61359
f. TXT x61360
f. TXT x61361
f. TXT x61362
f. TXT x61363
f. TXT x61364
f. TXT x61365
f. TXT x61366
f. TXT x61367
f. TXT x61368
f. TXT x61369
f. TXT x61370
f. TXT x61371
f. TXT x61372
f. TXT x61373
f. TXT x61374
f. TXT x61375
c-ay A b aaa
f. TXT x61377
f. TXT x61378
f. TXT x61379
f. TXT x61380
f. TXT x61381
f. TXT x61382
f. TXT x61383
f. TXT x61384
f. TXT x61385
f. TXT x61386
f. TXT x61387
f. TXT x61388
f. TXT x61389
f. TXT x61390
f. TXT x61391
f. TXT x61392
f. TXT x61393
f. TXT x61394
f. TXT x61395
f. TXT x61396
f. TXT x61397
f. TXT x61398
f. TXT x61399
f. TXT x61400
f. TXT x61401
f. TXT x61402
f. TXT x61403
f. TXT x61404
f. TXT x61405
f. TXT x61406
f. TXT x61407
f. TXT x61408
f. TXT x61409
f. TXT x61410
f. TXT x61411
f. TXT x61412
f. TXT x61413
f. TXT x61414
f. TXT x61415
f. TXT x61416
f. TXT x61417
f. TXT x61418
f. TXT x61419
f. TXT x61420
f. TXT x61421
f. TXT x61422
f. TXT x61423
f. TXT x61424
f. TXT x61425
f. TXT x61426
f. TXT x61427
f. TXT x61428
f. TXT x61429
f. TXT x61430
f. TXT x61431
f. TXT x61432
f. TXT x61433
f. TXT x61434
f. TXT x61435
f. TXT x61436
f. TXT x61437
f. TXT x61438
f. TXT x61439
 TXT *-0 c
f. TXT x61441
f. TXT x61442
f. TXT x61443
f. TXT x61444
f. TXT x61445
f. TXT x61446
f. TXT x61447
f. TXT x61448
f. TXT x61449
f. TXT x61450
f. TXT x61451
f. TXT x61452
f. TXT x61453
f. TXT x61454
f. TXT x61455
f. TXT x61456
f. TXT x61457
f. TXT x61458
f. TXT x61459
f. TXT x61460
f. TXT x61461
f. TXT x61462
f. TXT x61463
f. TXT x61464
f. TXT x61465
f. TXT x61466
f. TXT x61467
f. TXT x61468
f. TXT x61469
f. TXT x61470
f. TXT x61471
f. TXT x61472
f. TXT x61473
f. TXT x61474
f. TXT x61475
f. TXT x61476
f. TXT x61477
f. TXT x61478
f. TXT x61479
f. TXT x61480
f. TXT x61481
f. TXT x61482
f. TXT x61483
f. TXT x61484
f. TXT x61485
f. TXT x61486
f. TXT x61487
f. TXT x61488
f. TXT x61489
f. TXT x61490
f. TXT x61491
f. TXT x61492
f. TXT x61493
f. TXT x61494
f. TXT x61495
f. TXT x61496
f. TXT x61497
f. TXT x61498
f. TXT x61499
f. TXT x61500
f. TXT x61501
f. TXT x61502
f. TXT x61503
$ORIGIN 0bbc.-.
f. TXT x61505
f. TXT x61506
f. TXT x61507
f. TXT x61508
f. TXT x61509
f. TXT x61510
f. TXT x61511
f. TXT x61512
f. TXT x61513
f. TXT x61514
f. TXT x61515
f. TXT x61516
f. TXT x61517
f. TXT x61518
f. TXT x61519
f. TXT x61520
f. TXT x61521
f. TXT x61522
f. TXT x61523
f. TXT x61524
f. TXT x61525
f. TXT x61526
f. TXT x61527
f. TXT x61528
f. TXT x61529
f. TXT x61530
f. TXT x61531
f. TXT x61532
f. TXT x61533
f. TXT x61534
f. TXT x61535
f. TXT x61536
f. TXT x61537
f. TXT x61538
f. TXT x61539
f. TXT x61540
f. TXT x61541
f. TXT x61542
f. TXT x61543
f. TXT x61544
f. TXT x61545
f. TXT x61546
f. TXT x61547
f. TXT x61548
f. TXT x61549
f. TXT x61550
f. TXT x61551
f. TXT x61552
f. TXT x61553
f. TXT x61554
f. TXT x61555
f. TXT x61556
f. TXT x61557
f. TXT x61558
f. TXT x61559
f. TXT x61560
f. TXT x61561
f. TXT x61562
f. TXT x61563
f. TXT x61564
f. TXT x61565
f. TXT x61566
f. TXT x61567
yc A 000 y
f. TXT x61569
f. TXT x61570
f. TXT x61571
f. TXT x61572
f. TXT x61573
f. TXT x61574
f. TXT x61575
f. TXT x61576
f. TXT x61577
f. TXT x61578
f. TXT x61579
f. TXT x61580
f. TXT x61581
f. TXT x61582
f. TXT x61583
f. TXT x61584
f. TXT x61585
f. TXT x61586
f. TXT x61587
f. TXT x61588
f. TXT x61589
f. TXT x61590
f. TXT x61591
f. TXT x61592
f. TXT x61593
f. TXT x61594
f. TXT x61595
f. TXT x61596
f. TXT x61597
f. TXT x61598
f. TXT x61599
f. TXT x61600
f. TXT x61601
f. TXT x61602
f. TXT x61603
f. TXT x61604
f. TXT x61605
f. TXT x61606
f. TXT x61607
f. TXT x61608
f. TXT x61609
f. TXT x61610
f. TXT x61611
f. TXT x61612
f. TXT x61613
f. TXT x61614
f. TXT x61615
f. TXT x61616
f. TXT x61617
f. TXT x61618
f. TXT x61619
f. TXT x61620
f. TXT x61621
f. TXT x61622
f. TXT x61623
f. TXT x61624
f. TXT x61625
f. TXT x61626
f. TXT x61627
f. TXT x61628
f. TXT x61629
f. TXT x61630
f. TXT x61631
c. A y-0- 0xxz y00
f. TXT x61633
f. TXT x61634
f. TXT x61635
f. TXT x61636
f. TXT x61637
f. TXT x61638
f. TXT x61639
f. TXT x61640
f. TXT x61641
f. TXT x61642
f. TXT x61643
f. TXT x61644
f. TXT x61645
f. TXT x61646
f. TXT x61647
f. TXT x61648
f. TXT x61649
f. TXT x61650
f. TXT x61651
f. TXT x61652
f. TXT x61653
f. TXT x61654
f. TXT x61655
f. TXT x61656
f. TXT x61657
f. TXT x61658
f. TXT x61659
f. TXT x61660
f. TXT x61661
f. TXT x61662
f. TXT x61663
f. TXT x61664
f. TXT x61665
f. TXT x61666
f. TXT x61667
f. TXT x61668
f. TXT x61669
f. TXT x61670
f. TXT x61671
f. TXT x61672
f. TXT x61673
f. TXT x61674
f. TXT x61675
f. TXT x61676
f. TXT x61677
f. TXT x61678
f. TXT x61679
f. TXT x61680
f. TXT x61681
f. TXT x61682
f. TXT x61683
f. TXT x61684
f. TXT x61685
f. TXT x61686
f. TXT x61687
f. TXT x61688
f. TXT x61689
f. TXT x61690
f. TXT x61691
f. TXT x61692
f. TXT x61693
f. TXT x61694
f. TXT x61695
$ORIGIN 0y.x*.
f. TXT x61697
f. TXT x61698
f. TXT x61699
f. TXT x61700
f. TXT x61701
f. TXT x61702
f. TXT x61703
f. TXT x61704
f. TXT x61705
f. TXT x61706
f. TXT x61707
f. TXT x61708
f. TXT x61709
f. TXT x61710
f. TXT x61711
f. TXT x61712
f. TXT x61713
f. TXT x61714
f. TXT x61715
f. TXT x61716
f. TXT x61717
f. TXT x61718
f. TXT x61719
f. TXT x61720
f. TXT x61721
f. TXT x61722
f. TXT x61723
f. TXT x61724
f. TXT x61725
f. TXT x61726
f. TXT x61727
f. TXT x61728
f. TXT x61729
f. TXT x61730
f. TXT x61731
f. TXT x61732
f. TXT x61733
f. TXT x61734
f. TXT x61735
f. TXT x61736
f. TXT x61737
f. TXT x61738
f. TXT x61739
f. TXT x61740
f. TXT x61741
f. TXT x61742
f. TXT x61743
f. TXT x61744
f. TXT x61745
f. TXT x61746
f. TXT x61747
f. TXT x61748
f. TXT x61749
f. TXT x61750
f. TXT x61751
f. TXT x61752
f. TXT x61753
f. TXT x61754
f. TXT x61755
f. TXT x61756
f. TXT x61757
f. TXT x61758
f. TXT x61759
 A c-c ca-x *
f. TXT x61761
f. TXT x61762
f. TXT x61763
f. TXT x61764
f. TXT x61765
f. TXT x61766
f. TXT x61767
f. TXT x61768
f. TXT x61769
f. TXT x61770
f. TXT x61771
f. TXT x61772
f. TXT x61773
f. TXT x61774
f. TXT x61775
f. TXT x61776
f. TXT x61777
f. TXT x61778
f. TXT x61779
f. TXT x61780
f. TXT x61781
f. TXT x61782
f. TXT x61783
f. TXT x61784
f. TXT x61785
f. TXT x61786
f. TXT x61787
f. TXT x61788
f. TXT x61789
f. TXT x61790
f. TXT x61791
f. TXT x61792
f. TXT x61793
f. TXT x61794
f. TXT x61795
f. TXT x61796
f. TXT x61797
f. TXT x61798
f. TXT x61799
f. TXT x61800
f. TXT x61801
f. TXT x61802
f. TXT x61803
f. TXT x61804
f. TXT x61805
f. TXT x61806
f. TXT x61807
f. TXT x61808
f. TXT x61809
f. TXT x61810
f. TXT x61811
f. TXT x61812
f. TXT x61813
f. TXT x61814
f. TXT x61815
f. TXT x61816
f. TXT x61817
f. TXT x61818
f. TXT x61819
f. TXT x61820
f. TXT x61821
f. TXT x61822
f. TXT x61823
$TTL 0
f. TXT x61825
f. TXT x61826
f. TXT x61827
f. TXT x61828
f. TXT x61829
f. TXT x61830
f. TXT x61831
f. TXT x61832
f. TXT x61833
f. TXT x61834
f. TXT x61835
f. TXT x61836
f. TXT x61837
f. TXT x61838
f. TXT x61839
f. TXT x61840
f. TXT x61841
f. TXT x61842
f. TXT x61843
f. TXT x61844
f. TXT x61845
f. TXT x61846
f. TXT x61847
f. TXT x61848
f. TXT x61849
f. TXT x61850
f. TXT x61851
f. TXT x61852
f. TXT x61853
f. TXT x61854
f. TXT x61855
f. TXT x61856
f. TXT x61857
f. TXT x61858
f. TXT x61859
f. TXT x61860
f. TXT x61861
f. TXT x61862
f. TXT x61863
f. TXT x61864
f. TXT x61865
f. TXT x61866
f. TXT x61867
f. TXT x61868
f. TXT x61869
f. TXT x61870
f. TXT x61871
f. TXT x61872
f. TXT x61873
f. TXT x61874
f. TXT x61875
f. TXT x61876
f. TXT x61877
f. TXT x61878
f. TXT x61879
f. TXT x61880
f. TXT x61881
f. TXT x61882
f. TXT x61883
f. TXT x61884
f. TXT x61885
f. TXT x61886
f. TXT x61887
@ NS ccy*
f. TXT x61889
f. TXT x61890
f. TXT x61891
f. TXT x61892
f. TXT x61893
f. TXT x61894
f. TXT x61895
f. TXT x61896
f. TXT x61897
f. TXT x61898
f. TXT x61899
f. TXT x61900
f. TXT x61901
f. TXT x61902
f. TXT x61903
f. TXT x61904
f. TXT x61905
f. TXT x61906
f. TXT x61907
f. TXT x61908
f. TXT x61909
f. TXT x61910
f. TXT x61911
f. TXT x61912
f. TXT x61913
f. TXT x61914
f. TXT x61915
f. TXT x61916
f. TXT x61917
f. TXT x61918
f. TXT x61919
f. TXT x61920
f. TXT x61921
f. TXT x61922
f. TXT x61923
f. TXT x61924
f. TXT x61925
f. TXT x61926
f. TXT x61927
f. TXT x61928
f. TXT x61929
f. TXT x61930
f. TXT x61931
f. TXT x61932
f. TXT x61933
f. TXT x61934
f. TXT x61935
f. TXT x61936
f. TXT x61937
f. TXT x61938
f. TXT x61939
f. TXT x61940
f. TXT x61941
f. TXT x61942
f. TXT x61943
f. TXT x61944
f. TXT x61945
f. TXT x61946
f. TXT x61947
f. TXT x61948
f. TXT x61949
f. TXT x61950
f. TXT x61951
cxc TXT x0-c *- ycx*
f. TXT x61953
f. TXT x61954
f. TXT x61955
f. TXT x61956
f. TXT x61957
f. TXT x61958
f. TXT x61959
f. TXT x61960
f. TXT x61961
f. TXT x61962
f. TXT x61963
f. TXT x61964
f. TXT x61965
f. TXT x61966
f. TXT x61967
f. TXT x61968
f. TXT x61969
f. TXT x61970
f. TXT x61971
f. TXT x61972
f. TXT x61973
f. TXT x61974
f. TXT x61975
f. TXT x61976
f. TXT x61977
f. TXT x61978
f. TXT x61979
f. TXT x61980
f. TXT x61981
f. TXT x61982
f. TXT x61983
f. TXT x61984
f. TXT x61985
f. TXT x61986
f. TXT x61987
f. TXT x61988
f. TXT x61989
f. TXT x61990
f. TXT x61991
f. TXT x61992
f. TXT x61993
f. TXT x61994
f. TXT x61995
f. TXT x61996
f. TXT x61997
f. TXT x61998
f. TXT x61999
f. TXT x62000
f. TXT x62001
f. TXT x62002
f. TXT x62003
f. TXT x62004
f. TXT x62005
f. TXT x62006
f. TXT x62007
f. TXT x62008
f. TXT x62009
f. TXT x62010
f. TXT x62011
f. TXT x62012
f. TXT x62013
f. TXT x62014
f. TXT x62015
c0y0. TXT 0 a
f. TXT x62017
f. TXT x62018
f. TXT x62019
f. TXT x62020
f. TXT x62021
f. TXT x62022
f. TXT x62023
f. TXT x62024
f. TXT x62025
f. TXT x62026
f. TXT x62027
f. TXT x62028
f. TXT x62029
f. TXT x62030
f. TXT x62031
f. TXT x62032
f. TXT x62033
f. TXT x62034
f. TXT x62035
f. TXT x62036
f. TXT x62037
f. TXT x62038
f. TXT x62039
f. TXT x62040
f. TXT x62041
f. TXT x62042
f. TXT x62043
f. TXT x62044
f. TXT x62045
f. TXT x62046
f. TXT x62047
f. TXT x62048
f. TXT x62049
f. TXT x62050
f. TXT x62051
f. TXT x62052
f. TXT x62053
f. TXT x62054
f. TXT x62055
f. TXT x62056
f. TXT x62057
f. TXT x62058
f. TXT x62059
f. TXT x62060
f. TXT x62061
f. TXT x62062
f. TXT x62063
f. TXT x62064
f. TXT x62065
f. TXT x62066
f. TXT x62067
f. TXT x62068
f. TXT x62069
f. TXT x62070
f. TXT x62071
f. TXT x62072
f. TXT x62073
f. TXT x62074
f. TXT x62075
f. TXT x62076
f. TXT x62077
f. TXT x62078
f. TXT x62079
@ A xac yz- y
f. TXT x62081
f. TXT x62082
f. TXT x62083
f. TXT x62084
f. TXT x62085
f. TXT x62086
f. TXT x62087
f. TXT x62088
f. TXT x62089
f. TXT x62090
f. TXT x62091
f. TXT x62092
f. TXT x62093
f. TXT x62094
f. TXT x62095
f. TXT x62096
f. TXT x62097
f. TXT x62098
f. TXT x62099
f. TXT x62100
f. TXT x62101
f. TXT x62102
f. TXT x62103
f. TXT x62104
f. TXT x62105
f. TXT x62106
f. TXT x62107
f. TXT x62108
f. TXT x62109
f. TXT x62110
f. TXT x62111
f. TXT x62112
f. TXT x62113
f. TXT x62114
f. TXT x62115
f. TXT x62116
f. TXT x62117
f. TXT x62118
f. TXT x62119
f. TXT x62120
f. TXT x62121
f. TXT x62122
f. TXT x62123
f. TXT x62124
f. TXT x62125
f. TXT x62126
f. TXT x62127
f. TXT x62128
f. TXT x62129
f. TXT x62130
f. TXT x62131
f. TXT x62132
f. TXT x62133
f. TXT x62134
f. TXT x62135
f. TXT x62136
f. TXT x62137
f. TXT x62138
f. TXT x62139
f. TXT x62140
f. TXT x62141
f. TXT x62142
f. TXT x62143
; bbac
f. TXT x62145
f. TXT x62146
f. TXT x62147
f. TXT x62148
f. TXT x62149
f. TXT x62150
f. TXT x62151
f. TXT x62152
f. TXT x62153
f. TXT x62154
f. TXT x62155
f. TXT x62156
f. TXT x62157
f. TXT x62158
f. TXT x62159
f. TXT x62160
f. TXT x62161
f. TXT x62162
f. TXT x62163
f. TXT x62164
f. TXT x62165
f. TXT x62166
f. TXT x62167
f. TXT x62168
f. TXT x62169
f. TXT x62170
f. TXT x62171
f. TXT x62172
f. TXT x62173
f. TXT x62174
f. TXT x62175
f. TXT x62176
f. TXT x62177
f. TXT x62178
f. TXT x62179
f. TXT x62180
f. TXT x62181
f. TXT x62182
f. TXT x62183
f. TXT x62184
f. TXT x62185
f. TXT x62186
f. TXT x62187
f. TXT x62188
f. TXT x62189
f. TXT x62190
f. TXT x62191
f. TXT x62192
f. TXT x62193
f. TXT x62194
f. TXT x62195
f. TXT x62196
f. TXT x62197
f. TXT x62198
f. TXT x62199
f. TXT x62200
f. TXT x62201
f. TXT x62202
f. TXT x62203
f. TXT x62204
f. TXT x62205
f. TXT x62206
f. TXT x62207
@ NS bc
f. TXT x62209
f. TXT x62210
f. TXT x62211
f. TXT x62212
f. TXT x62213
f. TXT x62214
f. TXT x62215
f. TXT x62216
f. TXT x62217
f. TXT x62218
f. TXT x62219
f. TXT x62220
f. TXT x62221
f. TXT x62222
f. TXT x62223
f. TXT x62224
f. TXT x62225
f. TXT x62226
f. TXT x62227
f. TXT x62228
f. TXT x62229
f. TXT x62230
f. TXT x62231
f. TXT x62232
f. TXT x62233
f. TXT x62234
f. TXT x62235
f. TXT x62236
f. TXT x62237
f. TXT x62238
f. TXT x62239
f. TXT x62240
f. TXT x62241
f. TXT x62242
f. TXT x62243
f. TXT x62244
f. TXT x62245
f. TXT x62246
f. TXT x62247
f. TXT x62248
f. TXT x62249
f. TXT x62250
f. TXT x62251
f. TXT x62252
f. TXT x62253
f. TXT x62254
f. TXT x62255
f. TXT x62256
f. TXT x62257
f. TXT x62258
f. TXT x62259
f. TXT x62260
f. TXT x62261
f. TXT x62262
f. TXT x62263
f. TXT x62264
f. TXT x62265
f. TXT x62266
f. TXT x62267
f. TXT x62268
f. TXT x62269
f. TXT x62270
f. TXT x62271
*xa.z. TXT ybc xb0x xx
f. TXT x62273
f. TXT x62274
f. TXT x62275
f. TXT x62276
f. TXT x62277
f. TXT x62278
f. TXT x62279
f. TXT x62280
f. TXT x62281
f. TXT x62282
f. TXT x62283
f. TXT x62284
f. TXT x62285
f. TXT x62286
f. TXT x62287
f. TXT x62288
f. TXT x62289
f. TXT x62290
f. TXT x62291
f. TXT x62292
f. TXT x62293
f. TXT x62294
f. TXT x62295
f. TXT x62296
f. TXT x62297
f. TXT x62298
f. TXT x62299
f. TXT x62300
f. TXT x62301
f. TXT x62302
f. TXT x62303
f. TXT x62304
f. TXT x62305
f. TXT x62306
f. TXT x62307
f. TXT x62308
f. TXT x62309
f. TXT x62310
f. TXT x62311
f. TXT x62312
f. TXT x62313
f. TXT x62314
f. TXT x62315
f. TXT x62316
f. TXT x62317
f. TXT x62318
f. TXT x62319
f. TXT x62320
f. TXT x62321
f. TXT x62322
f. TXT x62323
f. TXT x62324
f. TXT x62325
f. TXT x62326
f. TXT x62327
f. TXT x62328
f. TXT x62329
f. TXT x62330
f. TXT x62331
f. TXT x62332
f. TXT x62333
f. TXT x62334
f. TXT x62335
0a.b00. A z y*
f. TXT x62337
f. TXT x62338
f. TXT x62339
f. TXT x62340
f. TXT x62341
f. TXT x62342
f. TXT x62343
f. TXT x62344
f. TXT x62345
f. TXT x62346
f. TXT x62347
f. TXT x62348
f. TXT x62349
f. TXT x62350
f. TXT x62351
f. TXT x62352
f. TXT x62353
f. TXT x62354
f. TXT x62355
f. TXT x62356
f. TXT x62357
f. TXT x62358
f. TXT x62359
f. TXT x62360
f. TXT x62361
f. TXT x62362
f. TXT x62363
f. TXT x62364
f. TXT x62365
f. TXT x62366
f. TXT x62367
f. TXT x62368
f. TXT x62369
f. TXT x62370
f. TXT x62371
f. TXT x62372
f. TXT x62373
f. TXT x62374
f. TXT x62375
f. TXT x62376
f. TXT x62377
f. TXT x62378
f. TXT x62379
f. TXT x62380
f. TXT x62381
f. TXT x62382
f. TXT x62383
f. TXT x62384
f. TXT x62385
f. TXT x62386
f. TXT x62387
f. TXT x62388
f. TXT x62389
f. TXT x62390
f. TXT x62391
f. TXT x62392
f. TXT x62393
f. TXT x62394
f. TXT x62395
f. TXT x62396
f. TXT x62397
f. TXT x62398
f. TXT x62399
@ TXT c a-cc c-bz
f. TXT x62401
f. TXT x62402
f. TXT x62403
f. TXT x62404
f. TXT x62405
f. TXT x62406
f. TXT x62407
f. TXT x62408
f. TXT x62409
f. TXT x62410
f. TXT x62411
f. TXT x62412
f. TXT x62413
f. TXT x62414
f. TXT x62415
f. TXT x62416
f. TXT x62417
f. TXT x62418
f. TXT x62419
f. TXT x62420
f. TXT x62421
f. TXT x62422
f. TXT x62423
f. TXT x62424
f. TXT x62425
f. TXT x62426
f. TXT x62427
f. TXT x62428
f. TXT x62429
f. TXT x62430
f. TXT x62431
f. TXT x62432
f. TXT x62433
f. TXT x62434
f. TXT x62435
f. TXT x62436
f. TXT x62437
f. TXT x62438
f. TXT x62439
f. TXT x62440
f. TXT x62441
f. TXT x62442
f. TXT x62443
f. TXT x62444
f. TXT x62445
f. TXT x62446
f. TXT x62447
f. TXT x62448
f. TXT x62449
f. TXT x62450
f. TXT x62451
f. TXT x62452
f. TXT x62453
f. TXT x62454
f. TXT x62455
f. TXT x62456
f. TXT x62457
f. TXT x62458
f. TXT x62459
f. TXT x62460
f. TXT x62461
f. TXT x62462
f. TXT x62463
0zbx. TXT 0b* abyx -x-z
f. TXT x62465
f. TXT x62466
f. TXT x62467
f. TXT x62468
f. TXT x62469
f. TXT x62470
f. TXT x62471
f. TXT x62472
f. TXT x62473
f. TXT x62474
f. TXT x62475
f. TXT x62476
f. TXT x62477
f. TXT x62478
f. TXT x62479
f. TXT x62480
f. TXT x62481
f. TXT x62482
f. TXT x62483
f. TXT x62484
f. TXT x62485
f. TXT x62486
f. TXT x62487
f. TXT x62488
f. TXT x62489
f. TXT x62490
f. TXT x62491
f. TXT x62492
f. TXT x62493
f. TXT x62494
f. TXT x62495
f. TXT x62496
f. TXT x62497
f. TXT x62498
f. TXT x62499
f. TXT x62500
f. TXT x62501
f. TXT x62502
f. TXT x62503
f. TXT x62504
f. TXT x62505
f. TXT x62506
f. TXT x62507
f. TXT x62508
f. TXT x62509
f. TXT x62510
f. TXT x62511
f. TXT x62512
f. TXT x62513
f. TXT x62514
f. TXT x62515
f. TXT x62516
f. TXT x62517
f. TXT x62518
f. TXT x62519
f. TXT x62520
f. TXT x62521
f. TXT x62522
f. TXT x62523
f. TXT x62524
f. TXT x62525
f. TXT x62526
f. TXT x62527
byb0.c. A az*b
f. TXT x62529
f. TXT x62530
f. TXT x62531
f. TXT x62532
f. TXT x62533
f. TXT x62534
f. TXT x62535
f. TXT x62536
f. TXT x62537
f. TXT x62538
f. TXT x62539
f. TXT x62540
f. TXT x62541
f. TXT x62542
f. TXT x62543
f. TXT x62544
f. TXT x62545
f. TXT x62546
f. TXT x62547
f. TXT x62548
f. TXT x62549
f. TXT x62550
f. TXT x62551
f. TXT x62552
f. TXT x62553
f. TXT x62554
f. TXT x62555
f. TXT x62556
f. TXT x62557
f. TXT x62558
f. TXT x62559
f. TXT x62560
f. TXT x62561
f. TXT x62562
f. TXT x62563
f. TXT x62564
f. TXT x62565
f. TXT x62566
f. TXT x62567
f. TXT x62568
f. TXT x62569
f. TXT x62570
f. TXT x62571
f. TXT x62572
f. TXT x62573
f. TXT x62574
f. TXT x62575
f. TXT x62576
f. TXT x62577
f. TXT x62578
f. TXT x62579
f. TXT x62580
f. TXT x62581
f. TXT x62582
f. TXT x62583
f. TXT x62584
f. TXT x62585
f. TXT x62586
f. TXT x62587
f. TXT x62588
f. TXT x62589
f. TXT x62590
f. TXT x62591
b A -0y b-- 0y
f. TXT x62593
f. TXT x62594
f. TXT x62595
f. TXT x62596
f. TXT x62597
f. TXT x62598
f. TXT x62599
f. TXT x62600
f. TXT x62601
f. TXT x62602
f. TXT x62603
f. TXT x62604
f. TXT x62605
f. TXT x62606
f. TXT x62607
f. TXT x62608
f. TXT x62609
f. TXT x62610
f. TXT x62611
f. TXT x62612
f. TXT x62613
f. TXT x62614
f. TXT x62615
f. TXT x62616
f. TXT x62617
f. TXT x62618
f. TXT x62619
f. TXT x62620
f. TXT x62621
f. TXT x62622
f. TXT x62623
f. TXT x62624
f. TXT x62625
f. TXT x62626
f. TXT x62627
f. TXT x62628
f. TXT x62629
f. TXT x62630
f. TXT x62631
f. TXT x62632
f. TXT x62633
f. TXT x62634
f. TXT x62635
f. TXT x62636
f. TXT x62637
f. TXT x62638
f. TXT x62639
f. TXT x62640
f. TXT x62641
f. TXT x62642
f. TXT x62643
f. TXT x62644
f. TXT x62645
f. TXT x62646
f. TXT x62647
f. TXT x62648
f. TXT x62649
f. TXT x62650
f. TXT x62651
f. TXT x62652
f. TXT x62653
f. TXT x62654
f. TXT x62655

f. TXT x62657
f. TXT x62658
f. TXT x62659
f. TXT x62660
f. TXT x62661
f. TXT x62662
f. TXT x62663
f. TXT x62664
f. TXT x62665
f. TXT x62666
f. TXT x62667
f. TXT x62668
f. TXT x62669
f. TXT x62670
f. TXT x62671
f. TXT x62672
f. TXT x62673
f. TXT x62674
f. TXT x62675
f. TXT x62676
f. TXT x62677
f. TXT x62678
f. TXT x62679
f. TXT x62680
f. TXT x62681
f. TXT x62682
f. TXT x62683
f. TXT x62684
f. TXT x62685
f. TXT x62686
f. TXT x62687
f. TXT x62688
f. TXT x62689
f. TXT x62690
f. TXT x62691
f. TXT x62692
f. TXT x62693
f. TXT x62694
f. TXT x62695
f. TXT x62696
f. TXT x62697
f. TXT x62698
f. TXT x62699
f. TXT x62700
f. TXT x62701
f. TXT x62702
f. TXT x62703
f. TXT x62704
f. TXT x62705
f. TXT x62706
f. TXT x62707
f. TXT x62708
f. TXT x62709
f. TXT x62710
f. TXT x62711
f. TXT x62712
f. TXT x62713
f. TXT x62714
f. TXT x62715
f. TXT x62716
f. TXT x62717
f. TXT x62718
f. TXT x62719
c.byx. NS *zz
f. TXT x62721
f. TXT x62722
f. TXT x62723
f. TXT x62724
f. TXT x62725
f. TXT x62726
f. TXT x62727
f. TXT x62728
f. TXT x62729
f. TXT x62730
f. TXT x62731
f. TXT x62732
f. TXT x62733
f. TXT x62734
f. TXT x62735
f. TXT x62736
f. TXT x62737
f. TXT x62738
f. TXT x62739
f. TXT x62740
f. TXT x62741
f. TXT x62742
f. TXT x62743
f. TXT x62744
f. TXT x62745
f. TXT x62746
f. TXT x62747
f. TXT x62748
f. TXT x62749
f. TXT x62750
f. TXT x62751
f. TXT x62752
f. TXT x62753
f. TXT x62754
f. TXT x62755
f. TXT x62756
f. TXT x62757
f. TXT x62758
f. TXT x62759
f. TXT x62760
f. TXT x62761
f. TXT x62762
f. TXT x62763
f. TXT x62764
f. TXT x62765
f. TXT x62766
f. TXT x62767
f. TXT x62768
f. TXT x62769
f. TXT x62770
f. TXT x62771
f. TXT x62772
f. TXT x62773
f. TXT x62774
f. TXT x62775
f. TXT x62776
f. TXT x62777
f. TXT x62778
f. TXT x62779
f. TXT x62780
f. TXT x62781
f. TXT x62782
f. TXT x62783
 NS c zxz
f. TXT x62785
f. TXT x62786
f. TXT x62787
f. TXT x62788
f. TXT x62789
f. TXT x62790
f. TXT x62791
f. TXT x62792
f. TXT x62793
f. TXT x62794
f. TXT x62795
f. TXT x62796
f. TXT x62797
f. TXT x62798
f. TXT x62799
f. TXT x62800
f. TXT x62801
f. TXT x62802
f. TXT x62803
f. TXT x62804
f. TXT x62805
f. TXT x62806
f. TXT x62807
f. TXT x62808
f. TXT x62809
f. TXT x62810
f. TXT x62811
f. TXT x62812
f. TXT x62813
f. TXT x62814
f. TXT x62815
f. TXT x62816
f. TXT x62817
f. TXT x62818
f. TXT x62819
f. TXT x62820
f. TXT x62821
f. TXT x62822
f. TXT x62823
f. TXT x62824
f. TXT x62825
f. TXT x62826
f. TXT x62827
f. TXT x62828
f. TXT x62829
f. TXT x62830
f. TXT x62831
f. TXT x62832
f. TXT x62833
f. TXT x62834
f. TXT x62835
f. TXT x62836
f. TXT x62837
f. TXT x62838
f. TXT x62839
f. TXT x62840
f. TXT x62841
f. TXT x62842
f. TXT x62843
f. TXT x62844
f. TXT x62845
f. TXT x62846
f. TXT x62847
*zc NS 0aza
f. TXT x62849
f. TXT x62850
f. TXT x62851
f. TXT x62852
f. TXT x62853
f. TXT x62854
f. TXT x62855
f. TXT x62856
f. TXT x62857
f. TXT x62858
f. TXT x62859
f. TXT x62860
f. TXT x62861
f. TXT x62862
f. TXT x62863
f. TXT x62864
f. TXT x62865
f. TXT x62866
f. TXT x62867
f. TXT x62868
f. TXT x62869
f. TXT x62870
f. TXT x62871
f. TXT x62872
f. TXT x62873
f. TXT x62874
f. TXT x62875
f. TXT x62876
f. TXT x62877
f. TXT x62878
f. TXT x62879
f. TXT x62880
f. TXT x62881
f. TXT x62882
f. TXT x62883
f. TXT x62884
f. TXT x62885
f. TXT x62886
f. TXT x62887
f. TXT x62888
f. TXT x62889
f. TXT x62890
f. TXT x62891
f. TXT x62892
f. TXT x62893
f. TXT x62894
f. TXT x62895
f. TXT x62896
f. TXT x62897
f. TXT x62898
f. TXT x62899
f. TXT x62900
f. TXT x62901
f. TXT x62902
f. TXT x62903
f. TXT x62904
f. TXT x62905
f. TXT x62906
f. TXT x62907
f. TXT x62908
f. TXT x62909
f. TXT x62910
f. TXT x62911
$ORIGIN c.ycb.
f. TXT x62913
f. TXT x62914
f. TXT x62915
f. TXT x62916
f. TXT x62917
f. TXT x62918
f. TXT x62919
f. TXT x62920
f. TXT x62921
f. TXT x62922
f. TXT x62923
f. TXT x62924
f. TXT x62925
f. TXT x62926
f. TXT x62927
f. TXT x62928
f. TXT x62929
f. TXT x62930
f. TXT x62931
f. TXT x62932
f. TXT x62933
f. TXT x62934
f. TXT x62935
f. TXT x62936
f. TXT x62937
f. TXT x62938
f. TXT x62939
f. TXT x62940
f. TXT x62941
f. TXT x62942
f. TXT x62943
f. TXT x62944
f. TXT x62945
f. TXT x62946
f. TXT x62947
f. TXT x62948
f. TXT x62949
f. TXT x62950
f. TXT x62951
f. TXT x62952
f. TXT x62953
f. TXT x62954
f. TXT x62955
f. TXT x62956
f. TXT x62957
f. TXT x62958
f. TXT x62959
f. TXT x62960
f. TXT x62961
f. TXT x62962
f. TXT x62963
f. TXT x62964
f. TXT x62965
f. TXT x62966
f. TXT x62967
f. TXT x62968
f. TXT x62969
f. TXT x62970
f. TXT x62971
f. TXT x62972
f. TXT x62973
f. TXT x62974
f. TXT x62975
$TTL 2147483648
f. TXT x62977
f. TXT x62978
f. TXT x62979
f. TXT x62980
f. TXT x62981
f. TXT x62982
f. TXT x62983
f. TXT x62984
f. TXT x62985
f. TXT x62986
f. TXT x62987
f. TXT x62988
f. TXT x62989
f. TXT x62990
f. TXT x62991
f. TXT x62992
f. TXT x62993
f. TXT x62994
f. TXT x62995
f. TXT x62996
f. TXT x62997
f. TXT x62998
f. TXT x62999
f. TXT x63000
f. TXT x63001
f. TXT x63002
f. TXT x63003
f. TXT x63004
f. TXT x63005
f. TXT x63006
f. TXT x63007
f. TXT x63008
f. TXT x63009
f. TXT x63010
f. TXT x63011
f. TXT x63012
f. TXT x63013
f. TXT x63014
f. TXT x63015
f. TXT x63016
f. TXT x63017
f. TXT x63018
f. TXT x63019
f. TXT x63020
f. TXT x63021
f. TXT x63022
f. TXT x63023
f. TXT x63024
f. TXT x63025
f. TXT x63026
f. TXT x63027
f. TXT x63028
f. TXT x63029
f. TXT x63030
f. TXT x63031
f. TXT x63032
f. TXT x63033
f. TXT x63034
f. TXT x63035
f. TXT x63036
f. TXT x63037
f. TXT x63038
f. TXT x63039
@ NS 0z ay
f. TXT x63041
f. TXT x63042
f. TXT x63043
f. TXT x63044
f. TXT x63045
f. TXT x63046
f. TXT x63047
f. TXT x63048
f. TXT x63049
f. TXT x63050
f. TXT x63051
f. TXT x63052
f. TXT x63053
f. TXT x63054
f. TXT x63055
f. TXT x63056
f. TXT x63057
f. TXT x63058
f. TXT x63059
f. TXT x63060
f. TXT x63061
f. TXT x63062
f. TXT x63063
f. TXT x63064
f. TXT x63065
f. TXT x63066
f. TXT x63067
f. TXT x63068
f. TXT x63069
f. TXT x63070
f. TXT x63071
f. TXT x63072
f. TXT x63073
f. TXT x63074
f. TXT x63075
f. TXT x63076
f. TXT x63077
f. TXT x63078
f. TXT x63079
f. TXT x63080
f. TXT x63081
f. TXT x63082
f. TXT x63083
f. TXT x63084
f. TXT x63085
f. TXT x63086
f. TXT x63087
f. TXT x63088
f. TXT x63089
f. TXT x63090
f. TXT x63091
f. TXT x63092
f. TXT x63093
f. TXT x63094
f. TXT x63095
f. TXT x63096
f. TXT x63097
f. TXT x63098
f. TXT x63099
f. TXT x63100
f. TXT x63101
f. TXT x63102
f. TXT x63103
 NS x*a xx-* cz
f. TXT x63105
f. TXT x63106
f. TXT x63107
f. TXT x63108
f. TXT x63109
f. TXT x63110
f. TXT x63111
f. TXT x63112
f. TXT x63113
f. TXT x63114
f. TXT x63115
f. TXT x63116
f. TXT x63117
f. TXT x63118
f. TXT x63119
f. TXT x63120
f. TXT x63121
f. TXT x63122
f. TXT x63123
f. TXT x63124
f. TXT x63125
f. TXT x63126
f. TXT x63127
f. TXT x63128
f. TXT x63129
f. TXT x63130
f. TXT x63131
f. TXT x63132
f. TXT x63133
f. TXT x63134
f. TXT x63135
f. TXT x63136
f. TXT x63137
f. TXT x63138
f. TXT x63139
f. TXT x63140
f. TXT x63141
f. TXT x63142
f. TXT x63143
f. TXT x63144
f. TXT x63145
f. TXT x63146
f. TXT x63147
f. TXT x63148
f. TXT x63149
f. TXT x63150
f. TXT x63151
f. TXT x63152
f. TXT x63153
f. TXT x63154
f. TXT x63155
f. TXT x63156
f. TXT x63157
f. TXT x63158
f. TXT x63159
f. TXT x63160
f. TXT x63161
f. TXT x63162
f. TXT x63163
f. TXT x63164
f. TXT x63165
f. TXT x63166
f. TXT x63167
$TTL 2
f. TXT x63169
f. TXT x63170
f. TXT x63171
f. TXT x63172
f. TXT x63173
f. TXT x63174
f. TXT x63175
f. TXT x63176
f. TXT x63177
f. TXT x63178
f. TXT x63179
f. TXT x63180
f. TXT x63181
f. TXT x63182
f. TXT x63183
f. TXT x63184
f. TXT x63185
f. TXT x63186
f. TXT x63187
f. TXT x63188
f. TXT x63189
f. TXT x63190
f. TXT x63191
f. TXT x63192
f. TXT x63193
f. TXT x63194
f. TXT x63195
f. TXT x63196
f. TXT x63197
f. TXT x63198
f. TXT x63199
f. TXT x63200
f. TXT x63201
f. TXT x63202
f. TXT x63203
f. TXT x63204
f. TXT x63205
f. TXT x63206
f. TXT x63207
f. TXT x63208
f. TXT x63209
f. TXT x63210
f. TXT x63211
f. TXT x63212
f. TXT x63213
f. TXT x63214
f. TXT x63215
f. TXT x63216
f. TXT x63217
f. TXT x63218
f. TXT x63219
f. TXT x63220
f. TXT x63221
f. TXT x63222
f. TXT x63223
f. TXT x63224
f. TXT x63225
f. TXT x63226
f. TXT x63227
f. TXT x63228
f. TXT x63229
f. TXT x63230
f. TXT x63231
$ORIGIN yz*.bc.
f. TXT x63233
f. TXT x63234
f. TXT x63235
f. TXT x63236
f. TXT x63237
f. TXT x63238
f. TXT x63239
f. TXT x63240
f. TXT x63241
f. TXT x63242
f. TXT x63243
f. TXT x63244
f. TXT x63245
f. TXT x63246
f. TXT x63247
f. TXT x63248
f. TXT x63249
f. TXT x63250
f. TXT x63251
f. TXT x63252
f. TXT x63253
f. TXT x63254
f. TXT x63255
f. TXT x63256
f. TXT x63257
f. TXT x63258
f. TXT x63259
f. TXT x63260
f. TXT x63261
f. TXT x63262
f. TXT x63263
f. TXT x63264
f. TXT x63265
f. TXT x63266
f. TXT x63267
f. TXT x63268
f. TXT x63269
f. TXT x63270
f. TXT x63271
f. TXT x63272
f. TXT x63273
f. TXT x63274
f. TXT x63275
f. TXT x63276
f. TXT x63277
f. TXT x63278
f. TXT x63279
f. TXT x63280
f. TXT x63281
f. TXT x63282
f. TXT x63283
f. TXT x63284
f. TXT x63285
f. TXT x63286
f. TXT x63287
f. TXT x63288
f. TXT x63289
f. TXT x63290
f. TXT x63291
f. TXT x63292
f. TXT x63293
f. TXT x63294
f. TXT x63295
bx0a A xz
f. TXT x63297
f. TXT x63298
f. TXT x63299
f. TXT x63300
f. TXT x63301
f. TXT x63302
f. TXT x63303
f. TXT x63304
f. TXT x63305
f. TXT x63306
f. TXT x63307
f. TXT x63308
f. TXT x63309
f. TXT x63310
f. TXT x63311
f. TXT x63312
f. TXT x63313
f. TXT x63314
f. TXT x63315
f. TXT x63316
f. TXT x63317
f. TXT x63318
f. TXT x63319
f. TXT x63320
f. TXT x63321
f. TXT x63322
f. TXT x63323
f. TXT x63324
f. TXT x63325
f. TXT x63326
f. TXT x63327
f. TXT x63328
f. TXT x63329
f. TXT x63330
f. TXT x63331
f. TXT x63332
f. TXT x63333
f. TXT x63334
f. TXT x63335
f. TXT x63336
f. TXT x63337
f. TXT x63338
f. TXT x63339
f. TXT x63340
f. TXT x63341
f. TXT x63342
f. TXT x63343
f. TXT x63344
f. TXT x63345
f. TXT x63346
f. TXT x63347
f. TXT x63348
f. TXT x63349
f. TXT x63350
f. TXT x63351
f. TXT x63352
f. TXT x63353
f. TXT x63354
f. TXT x63355
f. TXT x63356
f. TXT x63357
f. TXT x63358
f. TXT x63359
zca. A -c* yz0
f. TXT x63361
f. TXT x63362
f. TXT x63363
f. TXT x63364
f. TXT x63365
f. TXT x63366
f. TXT x63367
f. TXT x63368
f. TXT x63369
f. TXT x63370
f. TXT x63371
f. TXT x63372
f. TXT x63373
f. TXT x63374
f. TXT x63375
f. TXT x63376
f. TXT x63377
f. TXT x63378
f. TXT x63379
f. TXT x63380
f. TXT x63381
f. TXT x63382
f. TXT x63383
f. TXT x63384
f. TXT x63385
f. TXT x63386
f. TXT x63387
f. TXT x63388
f. TXT x63389
f. TXT x63390
f. TXT x63391
f. TXT x63392
f. TXT x63393
f. TXT x63394
f. TXT x63395
f. TXT x63396
f. TXT x63397
f. TXT x63398
f. TXT x63399
f. TXT x63400
f. TXT x63401
f. TXT x63402
f. TXT x63403
f. TXT x63404
f. TXT x63405
f. TXT x63406
f. TXT x63407
f. TXT x63408
f. TXT x63409
f. TXT x63410
f. TXT x63411
f. TXT x63412
f. TXT x63413
f. TXT x63414
f. TXT x63415
f. TXT x63416
f. TXT x63417
f. TXT x63418
f. TXT x63419
f. TXT x63420
f. TXT x63421
f. TXT x63422
f. TXT x63423
0y.*c. A *-a c yb
f. TXT x63425
f. TXT x63426
f. TXT x63427
f. TXT x63428
f. TXT x63429
f. TXT x63430
f. TXT x63431
f. TXT x63432
f. TXT x63433
f. TXT x63434
f. TXT x63435
f. TXT x63436
f. TXT x63437
f. TXT x63438
f. TXT x63439
f. TXT x63440
f. TXT x63441
f. TXT x63442
f. TXT x63443
f. TXT x63444
f. TXT x63445
f. TXT x63446
f. TXT x63447
f. TXT x63448
f. TXT x63449
f. TXT x63450
f. TXT x63451
f. TXT x63452
f. TXT x63453
f. TXT x63454
f. TXT x63455
f. TXT x63456
f. TXT x63457
f. TXT x63458
f. TXT x63459
f. TXT x63460
f. TXT x63461
f. TXT x63462
f. TXT x63463
f. TXT x63464
f. TXT x63465
f. TXT x63466
f. TXT x63467
f. TXT x63468
f. TXT x63469
f. TXT x63470
f. TXT x63471
f. TXT x63472
f. TXT x63473
f. TXT x63474
f. TXT x63475
f. TXT x63476
f. TXT x63477
f. TXT x63478
f. TXT x63479
f. TXT x63480
f. TXT x63481
f. TXT x63482
f. TXT x63483
f. TXT x63484
f. TXT x63485
f. TXT x63486
f. TXT x63487

f. TXT x63489
f. TXT x63490
f. TXT x63491
f. TXT x63492
f. TXT x63493
f. TXT x63494
f. TXT x63495
f. TXT x63496
f. TXT x63497
f. TXT x63498
f. TXT x63499
f. TXT x63500
f. TXT x63501
f. TXT x63502
f. TXT x63503
f. TXT x63504
f. TXT x63505
f. TXT x63506
f. TXT x63507
f. TXT x63508
f. TXT x63509
f. TXT x63510
f. TXT x63511
f. TXT x63512
f. TXT x63513
f. TXT x63514
f. TXT x63515
f. TXT x63516
f. TXT x63517
f. TXT x63518
f. TXT x63519
f. TXT x63520
f. TXT x63521
f. TXT x63522
f. TXT x63523
f. TXT x63524
f. TXT x63525
f. TXT x63526
f. TXT x63527
f. TXT x63528
f. TXT x63529
f. TXT x63530
f. TXT x63531
f. TXT x63532
f. TXT x63533
f. TXT x63534
f. TXT x63535
f. TXT x63536
f. TXT x63537
f. TXT x63538
f. TXT x63539
f. TXT x63540
f. TXT x63541
f. TXT x63542
f. TXT x63543
f. TXT x63544
f. TXT x63545
f. TXT x63546
f. TXT x63547
f. TXT x63548
f. TXT x63549
f. TXT x63550
f. TXT x63551
@ TXT z-
f. TXT x63553
f. TXT x63554
f. TXT x63555
f. TXT x63556
f. TXT x63557
f. TXT x63558
f. TXT x63559
f. TXT x63560
f. TXT x63561
f. TXT x63562
f. TXT x63563
f. TXT x63564
f. TXT x63565
f. TXT x63566
f. TXT x63567
f. TXT x63568
f. TXT x63569
f. TXT x63570
f. TXT x63571
f. TXT x63572
f. TXT x63573
f. TXT x63574
f. TXT x63575
f. TXT x63576
f. TXT x63577
f. TXT x63578
f. TXT x63579
f. TXT x63580
f. TXT x63581
f. TXT x63582
f. TXT x63583
f. TXT x63584
f. TXT x63585
f. TXT x63586
f. TXT x63587
f. TXT x63588
f. TXT x63589
f. TXT x63590
f. TXT x63591
f. TXT x63592
f. TXT x63593
f. TXT x63594
f. TXT x63595
f. TXT x63596
f. TXT x63597
f. TXT x63598
f. TXT x63599
f. TXT x63600
f. TXT x63601
f. TXT x63602
f. TXT x63603
f. TXT x63604
f. TXT x63605
f. TXT x63606
f. TXT x63607
f. TXT x63608
f. TXT x63609
f. TXT x63610
f. TXT x63611
f. TXT x63612
f. TXT x63613
f. TXT x63614
f. TXT x63615
$TTL 11866
f. TXT x63617
f. TXT x63618
f. TXT x63619
f. TXT x63620
f. TXT x63621
f. TXT x63622
f. TXT x63623
f. TXT x63624
f. TXT x63625
f. TXT x63626
f. TXT x63627
f. TXT x63628
f. TXT x63629
f. TXT x63630
f. TXT x63631
f. TXT x63632
f. TXT x63633
f. TXT x63634
f. TXT x63635
f. TXT x63636
f. TXT x63637
f. TXT x63638
f. TXT x63639
f. TXT x63640
f. TXT x63641
f. TXT x63642
f. TXT x63643
f. TXT x63644
f. TXT x63645
f. TXT x63646
f. TXT x63647
f. TXT x63648
f. TXT x63649
f. TXT x63650
f. TXT x63651
f. TXT x63652
f. TXT x63653
f. TXT x63654
f. TXT x63655
f. TXT x63656
f. TXT x63657
f. TXT x63658
f. TXT x63659
f. TXT x63660
f. TXT x63661
f. TXT x63662
f. TXT x63663
f. TXT x63664
f. TXT x63665
f. TXT x63666
f. TXT x63667
f. TXT x63668
f. TXT x63669
f. TXT x63670
f. TXT x63671
f. TXT x63672
f. TXT x63673
f. TXT x63674
f. TXT x63675
f. TXT x63676
f. TXT x63677
f. TXT x63678
f. TXT x63679
@ NS vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
f. TXT x63681
f. TXT x63682
f. TXT x63683
f. TXT x63684
f. TXT x63685
f. TXT x63686
f. TXT x63687
f. TXT x63688
f. TXT x63689
f. TXT x63690
f. TXT x63691
f. TXT x63692
f. TXT x63693
f. TXT x63694
f. TXT x63695
f. TXT x63696
f. TXT x63697
f. TXT x63698
f. TXT x63699
f. TXT x63700
f. TXT x63701
f. TXT x63702
f. TXT x63703
f. TXT x63704
f. TXT x63705
f. TXT x63706
f. TXT x63707
f. TXT x63708
f. TXT x63709
f. TXT x63710
f. TXT x63711
f. TXT x63712
f. TXT x63713
f. TXT x63714
f. TXT x63715
f. TXT x63716
f. TXT x63717
f. TXT x63718
f. TXT x63719
f. TXT x63720
f. TXT x63721
f. TXT x63722
f. TXT x63723
f. TXT x63724
f. TXT x63725
f. TXT x63726
f. TXT x63727
f. TXT x63728
f. TXT x63729
f. TXT x63730
f. TXT x63731
f. TXT x63732
f. TXT x63733
f. TXT x63734
f. TXT x63735
f. TXT x63736
f. TXT x63737
f. TXT x63738
f. TXT x63739
f. TXT x63740
f. TXT x63741
f. TXT x63742
f. TXT x63743
$TTL 4294967295
f. TXT x63745
f. TXT x63746
f. TXT x63747
f. TXT x63748
f. TXT x63749
f. TXT x63750
f. TXT x63751
f. TXT x63752
f. TXT x63753
f. TXT x63754
f. TXT x63755
f. TXT x63756
f. TXT x63757
f. TXT x63758
f. TXT x63759
f. TXT x63760
f. TXT x63761
f. TXT x63762
f. TXT x63763
f. TXT x63764
f. TXT x63765
f. TXT x63766
f. TXT x63767
f. TXT x63768
f. TXT x63769
f. TXT x63770
f. TXT x63771
f. TXT x63772
f. TXT x63773
f. TXT x63774
f. TXT x63775
f. TXT x63776
f. TXT x63777
f. TXT x63778
f. TXT x63779
f. TXT x63780
f. TXT x63781
f. TXT x63782
f. TXT x63783
f. TXT x63784
f. TXT x63785
f. TXT x63786
f. TXT x63787
f. TXT x63788
f. TXT x63789
f. TXT x63790
f. TXT x63791
f. TXT x63792
f. TXT x63793
f. TXT x63794
f. TXT x63795
f. TXT x63796
f. TXT x63797
f. TXT x63798
f. TXT x63799
f. TXT x63800
f. TXT x63801
f. TXT x63802
f. TXT x63803
f. TXT x63804
f. TXT x63805
f. TXT x63806
f. TXT x63807
$TTL 2147483648
f. TXT x63809
f. TXT x63810
f. TXT x63811
f. TXT x63812
f. TXT x63813
f. TXT x63814
f. TXT x63815
f. TXT x63816
f. TXT x63817
f. TXT x63818
f. TXT x63819
f. TXT x63820
f. TXT x63821
f. TXT x63822
f. TXT x63823
f. TXT x63824
f. TXT x63825
f. TXT x63826
f. TXT x63827
f. TXT x63828
f. TXT x63829
f. TXT x63830
f. TXT x63831
f. TXT x63832
f. TXT x63833
f. TXT x63834
f. TXT x63835
f. TXT x63836
f. TXT x63837
f. TXT x63838
f. TXT x63839
f. TXT x63840
f. TXT x63841
f. TXT x63842
f. TXT x63843
f. TXT x63844
f. TXT x63845
f. TXT x63846
f. TXT x63847
f. TXT x63848
f. TXT x63849
f. TXT x63850
f. TXT x63851
f. TXT x63852
f. TXT x63853
f. TXT x63854
f. TXT x63855
f. TXT x63856
f. TXT x63857
f. TXT x63858
f. TXT x63859
f. TXT x63860
f. TXT x63861
f. TXT x63862
f. TXT x63863
f. TXT x63864
f. TXT x63865
f. TXT x63866
f. TXT x63867
f. TXT x63868
f. TXT x63869
f. TXT x63870
f. TXT x63871
$ORIGIN *xya.
f. TXT x63873
f. TXT x63874
f. TXT x63875
f. TXT x63876
f. TXT x63877
f. TXT x63878
f. TXT x63879
f. TXT x63880
f. TXT x63881
f. TXT x63882
f. TXT x63883
f. TXT x63884
f. TXT x63885
f. TXT x63886
f. TXT x63887
f. TXT x63888
f. TXT x63889
f. TXT x63890
f. TXT x63891
f. TXT x63892
f. TXT x63893
f. TXT x63894
f. TXT x63895
f. TXT x63896
f. TXT x63897
f. TXT x63898
f. TXT x63899
f. TXT x63900
f. TXT x63901
f. TXT x63902
f. TXT x63903
f. TXT x63904
f. TXT x63905
f. TXT x63906
f. TXT x63907
f. TXT x63908
f. TXT x63909
f. TXT x63910
f. TXT x63911
f. TXT x63912
f. TXT x63913
f. TXT x63914
f. TXT x63915
f. TXT x63916
f. TXT x63917
f. TXT x63918
f. TXT x63919
f. TXT x63920
f. TXT x63921
f. TXT x63922
f. TXT x63923
f. TXT x63924
f. TXT x63925
f. TXT x63926
f. TXT x63927
f. TXT x63928
f. TXT x63929
f. TXT x63930
f. TXT x63931
f. TXT x63932
f. TXT x63933
f. TXT x63934
f. TXT x63935
; x*y0
f. TXT x63937
f. TXT x63938
f. TXT x63939
f. TXT x63940
f. TXT x63941
f. TXT x63942
f. TXT x63943
f. TXT x63944
f. TXT x63945
f. TXT x63946
f. TXT x63947
f. TXT x63948
f. TXT x63949
f. TXT x63950
f. TXT x63951
f. TXT x63952
f. TXT x63953
f. TXT x63954
f. TXT x63955
f. TXT x63956
f. TXT x63957
f. TXT x63958
f. TXT x63959
f. TXT x63960
f. TXT x63961
f. TXT x63962
f. TXT x63963
f. TXT x63964
f. TXT x63965
f. TXT x63966
f. TXT x63967
f. TXT x63968
f. TXT x63969
f. TXT x63970
f. TXT x63971
f. TXT x63972
f. TXT x63973
f. TXT x63974
f. TXT x63975
f. TXT x63976
f. TXT x63977
f. TXT x63978
f. TXT x63979
f. TXT x63980
f. TXT x63981
f. TXT x63982
f. TXT x63983
f. TXT x63984
f. TXT x63985
f. TXT x63986
f. TXT x63987
f. TXT x63988
f. TXT x63989
f. TXT x63990
f. TXT x63991
f. TXT x63992
f. TXT x63993
f. TXT x63994
f. TXT x63995
f. TXT x63996
f. TXT x63997
f. TXT x63998
f. TXT x63999
y0z- NS *-
f. TXT x64001
f. TXT x64002
f. TXT x64003
f. TXT x64004
f. TXT x64005
f. TXT x64006
f. TXT x64007
f. TXT x64008
f. TXT x64009
f. TXT x64010
f. TXT x64011
f. TXT x64012
f. TXT x64013
f. TXT x64014
f. TXT x64015
f. TXT x64016
f. TXT x64017
f. TXT x64018
f. TXT x64019
f. TXT x64020
f. TXT x64021
f. TXT x64022
f. TXT x64023
f. TXT x64024
f. TXT x64025
f. TXT x64026
f. TXT x64027
f. TXT x64028
f. TXT x64029
f. TXT x64030
f. TXT x64031
f. TXT x64032
f. TXT x64033
f. TXT x64034
f. TXT x64035
f. TXT x64036
f. TXT x64037
f. TXT x64038
f. TXT x64039
f. TXT x64040
f. TXT x64041
f. TXT x64042
f. TXT x64043
f. TXT x64044
f. TXT x64045
f. TXT x64046
f. TXT x64047
f. TXT x64048
f. TXT x64049
f. TXT x64050
f. TXT x64051
f. TXT x64052
f. TXT x64053
f. TXT x64054
f. TXT x64055
f. TXT x64056
f. TXT x64057
f. TXT x64058
f. TXT x64059
f. TXT x64060
f. TXT x64061
f. TXT x64062
f. TXT x64063
-c. A *zc *y- by
f. TXT x64065
f. TXT x64066
f. TXT x64067
f. TXT x64068
f. TXT x64069
f. TXT x64070
f. TXT x64071
f. TXT x64072
f. TXT x64073
f. TXT x64074
f. TXT x64075
f. TXT x64076
f. TXT x64077
f. TXT x64078
f. TXT x64079
f. TXT x64080
f. TXT x64081
f. TXT x64082
f. TXT x64083
f. TXT x64084
f. TXT x64085
f. TXT x64086
f. TXT x64087
f. TXT x64088
f. TXT x64089
f. TXT x64090
f. TXT x64091
f. TXT x64092
f. TXT x64093
f. TXT x64094
f. TXT x64095
f. TXT x64096
f. TXT x64097
f. TXT x64098
f. TXT x64099
f. TXT x64100
f. TXT x64101
f. TXT x64102
f. TXT x64103
f. TXT x64104
f. TXT x64105
f. TXT x64106
f. TXT x64107
f. TXT x64108
f. TXT x64109
f. TXT x64110
f. TXT x64111
f. TXT x64112
f. TXT x64113
f. TXT x64114
f. TXT x64115
f. TXT x64116
f. TXT x64117
f. TXT x64118
f. TXT x64119
f. TXT x64120
f. TXT x64121
f. TXT x64122
f. TXT x64123
f. TXT x64124
f. TXT x64125
f. TXT x64126
f. TXT x64127
a-xb.-a. NS a 0-0x
f. TXT x64129
f. TXT x64130
f. TXT x64131
f. TXT x64132
f. TXT x64133
f. TXT x64134
f. TXT x64135
f. TXT x64136
f. TXT x64137
f. TXT x64138
f. TXT x64139
f. TXT x64140
f. TXT x64141
f. TXT x64142
f. TXT x64143
f. TXT x64144
f. TXT x64145
f. TXT x64146
f. TXT x64147
f. TXT x64148
f. TXT x64149
f. TXT x64150
f. TXT x64151
f. TXT x64152
f. TXT x64153
f. TXT x64154
f. TXT x64155
f. TXT x64156
f. TXT x64157
f. TXT x64158
f. TXT x64159
f. TXT x64160
f. TXT x64161
f. TXT x64162
f. TXT x64163
f. TXT x64164
f. TXT x64165
f. TXT x64166
f. TXT x64167
f. TXT x64168
f. TXT x64169
f. TXT x64170
f. TXT x64171
f. TXT x64172
f. TXT x64173
f. TXT x64174
f. TXT x64175
f. TXT x64176
f. TXT x64177
f. TXT x64178
f. TXT x64179
f. TXT x64180
f. TXT x64181
f. TXT x64182
f. TXT x64183
f. TXT x64184
f. TXT x64185
f. TXT x64186
f. TXT x64187
f. TXT x64188
f. TXT x64189
f. TXT x64190
f. TXT x64191
x.b. A 0- a0
f. TXT x64193
f. TXT x64194
f. TXT x64195
f. TXT x64196
f. TXT x64197
f. TXT x64198
f. TXT x64199
f. TXT x64200
f. TXT x64201
f. TXT x64202
f. TXT x64203
f. TXT x64204
f. TXT x64205
f. TXT x64206
f. TXT x64207
f. TXT x64208
f. TXT x64209
f. TXT x64210
f. TXT x64211
f. TXT x64212
f. TXT x64213
f. TXT x64214
f. TXT x64215
f. TXT x64216
f. TXT x64217
f. TXT x64218
f. TXT x64219
f. TXT x64220
f. TXT x64221
f. TXT x64222
f. TXT x64223
f. TXT x64224
f. TXT x64225
f. TXT x64226
f. TXT x64227
f. TXT x64228
f. TXT x64229
f. TXT x64230
f. TXT x64231
f. TXT x64232
f. TXT x64233
f. TXT x64234
f. TXT x64235
f. TXT x64236
f. TXT x64237
f. TXT x64238
f. TXT x64239
f. TXT x64240
f. TXT x64241
f. TXT x64242
f. TXT x64243
f. TXT x64244
f. TXT x64245
f. TXT x64246
f. TXT x64247
f. TXT x64248
f. TXT x64249
f. TXT x64250
f. TXT x64251
f. TXT x64252
f. TXT x64253
f. TXT x64254
f. TXT x64255
zccx.bx. TXT -y** zza
f. TXT x64257
f. TXT x64258
f. TXT x64259
f. TXT x64260
f. TXT x64261
f. TXT x64262
f. TXT x64263
f. TXT x64264
f. TXT x64265
f. TXT x64266
f. TXT x64267
f. TXT x64268
f. TXT x64269
f. TXT x64270
f. TXT x64271
f. TXT x64272
f. TXT x64273
f. TXT x64274
f. TXT x64275
f. TXT x64276
f. TXT x64277
f. TXT x64278
f. TXT x64279
f. TXT x64280
f. TXT x64281
f. TXT x64282
f. TXT x64283
f. TXT x64284
f. TXT x64285
f. TXT x64286
f. TXT x64287
f. TXT x64288
f. TXT x64289
f. TXT x64290
f. TXT x64291
f. TXT x64292
f. TXT x64293
f. TXT x64294
f. TXT x64295
f. TXT x64296
f. TXT x64297
f. TXT x64298
f. TXT x64299
f. TXT x64300
f. TXT x64301
f. TXT x64302
f. TXT x64303
f. TXT x64304
f. TXT x64305
f. TXT x64306
f. TXT x64307
f. TXT x64308
f. TXT x64309
f. TXT x64310
f. TXT x64311
f. TXT x64312
f. TXT x64313
f. TXT x64314
f. TXT x64315
f. TXT x64316
f. TXT x64317
f. TXT x64318
f. TXT x64319
@ NS bxzz
f. TXT x64321
f. TXT x64322
f. TXT x64323
f. TXT x64324
f. TXT x64325
f. TXT x64326
f. TXT x64327
f. TXT x64328
f. TXT x64329
f. TXT x64330
f. TXT x64331
f. TXT x64332
f. TXT x64333
f. TXT x64334
f. TXT x64335
f. TXT x64336
f. TXT x64337
f. TXT x64338
f. TXT x64339
f. TXT x64340
f. TXT x64341
f. TXT x64342
f. TXT x64343
f. TXT x64344
f. TXT x64345
f. TXT x64346
f. TXT x64347
f. TXT x64348
f. TXT x64349
f. TXT x64350
f. TXT x64351
f. TXT x64352
f. TXT x64353
f. TXT x64354
f. TXT x64355
f. TXT x64356
f. TXT x64357
f. TXT x64358
f. TXT x64359
f. TXT x64360
f. TXT x64361
f. TXT x64362
f. TXT x64363
f. TXT x64364
f. TXT x64365
f. TXT x64366
f. TXT x64367
f. TXT x64368
f. TXT x64369
f. TXT x64370
f. TXT x64371
f. TXT x64372
f. TXT x64373
f. TXT x64374
f. TXT x64375
f. TXT x64376
f. TXT x64377
f. TXT x64378
f. TXT x64379
f. TXT x64380
f. TXT x64381
f. TXT x64382
f. TXT x64383
c*. TXT c0bb
f. TXT x64385
f. TXT x64386
f. TXT x64387
f. TXT x64388
f. TXT x64389
f. TXT x64390
f. TXT x64391
f. TXT x64392
f. TXT x64393
f. TXT x64394
f. TXT x64395
f. TXT x64396
f. TXT x64397
f. TXT x64398
f. TXT x64399
f. TXT x64400
f. TXT x64401
f. TXT x64402
f. TXT x64403
f. TXT x64404
f. TXT x64405
f. TXT x64406
f. TXT x64407
f. TXT x64408
f. TXT x64409
f. TXT x64410
f. TXT x64411
f. TXT x64412
f. TXT x64413
f. TXT x64414
f. TXT x64415
f. TXT x64416
f. TXT x64417
f. TXT x64418
f. TXT x64419
f. TXT x64420
f. TXT x64421
f. TXT x64422
f. TXT x64423
f. TXT x64424
f. TXT x64425
f. TXT x64426
f. TXT x64427
f. TXT x64428
f. TXT x64429
f. TXT x64430
f. TXT x64431
f. TXT x64432
f. TXT x64433
f. TXT x64434
f. TXT x64435
f. TXT x64436
f. TXT x64437
f. TXT x64438
f. TXT x64439
f. TXT x64440
f. TXT x64441
f. TXT x64442
f. TXT x64443
f. TXT x64444
f. TXT x64445
f. TXT x64446
f. TXT x64447
 NS yz a0
f. TXT x64449
f. TXT x64450
f. TXT x64451
f. TXT x64452
f. TXT x64453
f. TXT x64454
f. TXT x64455
f. TXT x64456
f. TXT x64457
f. TXT x64458
f. TXT x64459
f. TXT x64460
f. TXT x64461
f. TXT x64462
f. TXT x64463
f. TXT x64464
f. TXT x64465
f. TXT x64466
f. TXT x64467
f. TXT x64468
f. TXT x64469
f. TXT x64470
f. TXT x64471
f. TXT x64472
f. TXT x64473
f. TXT x64474
f. TXT x64475
f. TXT x64476
f. TXT x64477
f. TXT x64478
f. TXT x64479
f. TXT x64480
f. TXT x64481
f. TXT x64482
f. TXT x64483
f. TXT x64484
f. TXT x64485
f. TXT x64486
f. TXT x64487
f. TXT x64488
f. TXT x64489
f. TXT x64490
f. TXT x64491
f. TXT x64492
f. TXT x64493
f. TXT x64494
f. TXT x64495
f. TXT x64496
f. TXT x64497
f. TXT x64498
f. TXT x64499
f. TXT x64500
f. TXT x64501
f. TXT x64502
f. TXT x64503
f. TXT x64504
f. TXT x64505
f. TXT x64506
f. TXT x64507
f. TXT x64508
f. TXT x64509
f. TXT x64510
f. TXT x64511
; a
f. TXT x64513
f. TXT x64514
f. TXT x64515
f. TXT x64516
f. TXT x64517
f. TXT x64518
f. TXT x64519
f. TXT x64520
f. TXT x64521
f. TXT x64522
f. TXT x64523
f. TXT x64524
f. TXT x64525
f. TXT x64526
f. TXT x64527
f. TXT x64528
f. TXT x64529
f. TXT x64530
f. TXT x64531
f. TXT x64532
f. TXT x64533
f. TXT x64534
f. TXT x64535
f. TXT x64536
f. TXT x64537
f. TXT x64538
f. TXT x64539
f. TXT x64540
f. TXT x64541
f. TXT x64542
f. TXT x64543
f. TXT x64544
f. TXT x64545
f. TXT x64546
f. TXT x64547
f. TXT x64548
f. TXT x64549
f. TXT x64550
f. TXT x64551
f. TXT x64552
f. TXT x64553
f. TXT x64554
f. TXT x64555
f. TXT x64556
f. TXT x64557
f. TXT x64558
f. TXT x64559
f. TXT x64560
f. TXT x64561
f. TXT x64562
f. TXT x64563
f. TXT x64564
f. TXT x64565
f. TXT x64566
f. TXT x64567
f. TXT x64568
f. TXT x64569
f. TXT x64570
f. TXT x64571
f. TXT x64572
f. TXT x64573
f. TXT x64574
f. TXT x64575
bx TXT 0a*
f. TXT x64577
f. TXT x64578
f. TXT x64579
f. TXT x64580
f. TXT x64581
f. TXT x64582
f. TXT x64583
f. TXT x64584
f. TXT x64585
f. TXT x64586
f. TXT x64587
f. TXT x64588
f. TXT x64589
f. TXT x64590
f. TXT x64591
f. TXT x64592
f. TXT x64593
f. TXT x64594
f. TXT x64595
f. TXT x64596
f. TXT x64597
f. TXT x64598
f. TXT x64599
f. TXT x64600
f. TXT x64601
f. TXT x64602
f. TXT x64603
f. TXT x64604
f. TXT x64605
f. TXT x64606
f. TXT x64607
f. TXT x64608
f. TXT x64609
f. TXT x64610
f. TXT x64611
f. TXT x64612
f. TXT x64613
f. TXT x64614
f. TXT x64615
f. TXT x64616
f. TXT x64617
f. TXT x64618
f. TXT x64619
f. TXT x64620
f. TXT x64621
f. TXT x64622
f. TXT x64623
f. TXT x64624
f. TXT x64625
f. TXT x64626
f. TXT x64627
f. TXT x64628
f. TXT x64629
f. TXT x64630
f. TXT x64631
f. TXT x64632
f. TXT x64633
f. TXT x64634
f. TXT x64635
f. TXT x64636
f. TXT x64637
f. TXT x64638
f. TXT x64639
@ TXT bxzc -- a00a
f. TXT x64641
f. TXT x64642
f. TXT x64643
f. TXT x64644
f. TXT x64645
f. TXT x64646
f. TXT x64647
f. TXT x64648
f. TXT x64649
f. TXT x64650
f. TXT x64651
f. TXT x64652
f. TXT x64653
f. TXT x64654
f. TXT x64655
f. TXT x64656
f. TXT x64657
f. TXT x64658
f. TXT x64659
f. TXT x64660
f. TXT x64661
f. TXT x64662
f. TXT x64663
f. TXT x64664
f. TXT x64665
f. TXT x64666
f. TXT x64667
f. TXT x64668
f. TXT x64669
f. TXT x64670
f. TXT x64671
f. TXT x64672
f. TXT x64673
f. TXT x64674
f. TXT x64675
f. TXT x64676
f. TXT x64677
f. TXT x64678
f. TXT x64679
f. TXT x64680
f. TXT x64681
f. TXT x64682
f. TXT x64683
f. TXT x64684
f. TXT x64685
f. TXT x64686
f. TXT x64687
f. TXT x64688
f. TXT x64689
f. TXT x64690
f. TXT x64691
f. TXT x64692
f. TXT x64693
f. TXT x64694
f. TXT x64695
f. TXT x64696
f. TXT x64697
f. TXT x64698
f. TXT x64699
f. TXT x64700
f. TXT x64701
f. TXT x64702
f. TXT x64703

f. TXT x64705
f. TXT x64706
f. TXT x64707
f. TXT x64708
f. TXT x64709
f. TXT x64710
f. TXT x64711
f. TXT x64712
f. TXT x64713
f. TXT x64714
f. TXT x64715
f. TXT x64716
f. TXT x64717
f. TXT x64718
f. TXT x64719
f. TXT x64720
f. TXT x64721
f. TXT x64722
f. TXT x64723
f. TXT x64724
f. TXT x64725
f. TXT x64726
f. TXT x64727
f. TXT x64728
f. TXT x64729
f. TXT x64730
f. TXT x64731
f. TXT x64732
f. TXT x64733
f. TXT x64734
f. TXT x64735
f. TXT x64736
f. TXT x64737
f. TXT x64738
f. TXT x64739
f. TXT x64740
f. TXT x64741
f. TXT x64742
f. TXT x64743
f. TXT x64744
f. TXT x64745
f. TXT x64746
f. TXT x64747
f. TXT x64748
f. TXT x64749
f. TXT x64750
f. TXT x64751
f. TXT x64752
f. TXT x64753
f. TXT x64754
f. TXT x64755
f. TXT x64756
f. TXT x64757
f. TXT x64758
f. TXT x64759
f. TXT x64760
f. TXT x64761
f. TXT x64762
f. TXT x64763
f. TXT x64764
f. TXT x64765
f. TXT x64766
f. TXT x64767

f. TXT x64769
f. TXT x64770
f. TXT x64771
f. TXT x64772
f. TXT x64773
f. TXT x64774
f. TXT x64775
f. TXT x64776
f. TXT x64777
f. TXT x64778
f. TXT x64779
f. TXT x64780
f. TXT x64781
f. TXT x64782
f. TXT x64783
f. TXT x64784
f. TXT x64785
f. TXT x64786
f. TXT x64787
f. TXT x64788
f. TXT x64789
f. TXT x64790
f. TXT x64791
f. TXT x64792
f. TXT x64793
f. TXT x64794
f. TXT x64795
f. TXT x64796
f. TXT x64797
f. TXT x64798
f. TXT x64799
f. TXT x64800
f. TXT x64801
f. TXT x64802
f. TXT x64803
f. TXT x64804
f. TXT x64805
f. TXT x64806
f. TXT x64807
f. TXT x64808
f. TXT x64809
f. TXT x64810
f. TXT x64811
f. TXT x64812
f. TXT x64813
f. TXT x64814
f. TXT x64815
f. TXT x64816
f. TXT x64817
f. TXT x64818
f. TXT x64819
f. TXT x64820
f. TXT x64821
f. TXT x64822
f. TXT x64823
f. TXT x64824
f. TXT x64825
f. TXT x64826
f. TXT x64827
f. TXT x64828
f. TXT x64829
f. TXT x64830
f. TXT x64831
$ORIGIN za.
f. TXT x64833
f. TXT x64834
f. TXT x64835
f. TXT x64836
f. TXT x64837
f. TXT x64838
f. TXT x64839
f. TXT x64840
f. TXT x64841
f. TXT x64842
f. TXT x64843
f. TXT x64844
f. TXT x64845
f. TXT x64846
f. TXT x64847
f. TXT x64848
f. TXT x64849
f. TXT x64850
f. TXT x64851
f. TXT x64852
f. TXT x64853
f. TXT x64854
f. TXT x64855
f. TXT x64856
f. TXT x64857
f. TXT x64858
f. TXT x64859
f. TXT x64860
f. TXT x64861
f. TXT x64862
f. TXT x64863
f. TXT x64864
f. TXT x64865
f. TXT x64866
f. TXT x64867
f. TXT x64868
f. TXT x64869
f. TXT x64870
f. TXT x64871
f. TXT x64872
f. TXT x64873
f. TXT x64874
f. TXT x64875
f. TXT x64876
f. TXT x64877
f. TXT x64878
f. TXT x64879
f. TXT x64880
f. TXT x64881
f. TXT x64882
f. TXT x64883
f. TXT x64884
f. TXT x64885
f. TXT x64886
f. TXT x64887
f. TXT x64888
f. TXT x64889
f. TXT x64890
f. TXT x64891
f. TXT x64892
f. TXT x64893
f. TXT x64894
f. TXT x64895
ycy TXT y*
f. TXT x64897
f. TXT x64898
f. TXT x64899
f. TXT x64900
f. TXT x64901
f. TXT x64902
f. TXT x64903
f. TXT x64904
f. TXT x64905
f. TXT x64906
f. TXT x64907
f. TXT x64908
f. TXT x64909
f. TXT x64910
f. TXT x64911
f. TXT x64912
f. TXT x64913
f. TXT x64914
f. TXT x64915
f. TXT x64916
f. TXT x64917
f. TXT x64918
f. TXT x64919
f. TXT x64920
f. TXT x64921
f. TXT x64922
f. TXT x64923
f. TXT x64924
f. TXT x64925
f. TXT x64926
f. TXT x64927
f. TXT x64928
f. TXT x64929
f. TXT x64930
f. TXT x64931
f. TXT x64932
f. TXT x64933
f. TXT x64934
f. TXT x64935
f. TXT x64936
f. TXT x64937
f. TXT x64938
f. TXT x64939
f. TXT x64940
f. TXT x64941
f. TXT x64942
f. TXT x64943
f. TXT x64944
f. TXT x64945
f. TXT x64946
f. TXT x64947
f. TXT x64948
f. TXT x64949
f. TXT x64950
f. TXT x64951
f. TXT x64952
f. TXT x64953
f. TXT x64954
f. TXT x64955
f. TXT x64956
f. TXT x64957
f. TXT x64958
f. TXT x64959
$TTL 3901029
f. TXT x64961
f. TXT x64962
f. TXT x64963
f. TXT x64964
f. TXT x64965
f. TXT x64966
f. TXT x64967
f. TXT x64968
f. TXT x64969
f. TXT x64970
f. TXT x64971
f. TXT x64972
f. TXT x64973
f. TXT x64974
f. TXT x64975
f. TXT x64976
f. TXT x64977
f. TXT x64978
f. TXT x64979
f. TXT x64980
f. TXT x64981
f. TXT x64982
f. TXT x64983
f. TXT x64984
f. TXT x64985
f. TXT x64986
f. TXT x64987
f. TXT x64988
f. TXT x64989
f. TXT x64990
f. TXT x64991
f. TXT x64992
f. TXT x64993
f. TXT x64994
f. TXT x64995
f. TXT x64996
f. TXT x64997
f. TXT x64998
f. TXT x64999
f. TXT x65000
f. TXT x65001
f. TXT x65002
f. TXT x65003
f. TXT x65004
f. TXT x65005
f. TXT x65006
f. TXT x65007
f. TXT x65008
f. TXT x65009
f. TXT x65010
f. TXT x65011
f. TXT x65012
f. TXT x65013
f. TXT x65014
f. TXT x65015
f. TXT x65016
f. TXT x65017
f. TXT x65018
f. TXT x65019
f. TXT x65020
f. TXT x65021
f. TXT x65022
f. TXT x65023
 A x 0
f. TXT x65025
f. TXT x65026
f. TXT x65027
f. TXT x65028
f. TXT x65029
f. TXT x65030
f. TXT x65031
f. TXT x65032
f. TXT x65033
f. TXT x65034
f. TXT x65035
f. TXT x65036
f. TXT x65037
f. TXT x65038
f. TXT x65039
f. TXT x65040
f. TXT x65041
f. TXT x65042
f. TXT x65043
f. TXT x65044
f. TXT x65045
f. TXT x65046
f. TXT x65047
f. TXT x65048
f. TXT x65049
f. TXT x65050
f. TXT x65051
f. TXT x65052
f. TXT x65053
f. TXT x65054
f. TXT x65055
f. TXT x65056
f. TXT x65057
f. TXT x65058
f. TXT x65059
f. TXT x65060
f. TXT x65061
f. TXT x65062
f. TXT x65063
f. TXT x65064
f. TXT x65065
f. TXT x65066
f. TXT x65067
f. TXT x65068
f. TXT x65069
f. TXT x65070
f. TXT x65071
f. TXT x65072
f. TXT x65073
f. TXT x65074
f. TXT x65075
f. TXT x65076
f. TXT x65077
f. TXT x65078
f. TXT x65079
f. TXT x65080
f. TXT x65081
f. TXT x65082
f. TXT x65083
f. TXT x65084
f. TXT x65085
f. TXT x65086
f. TXT x65087
; -
f. TXT x65089
f. TXT x65090
f. TXT x65091
f. TXT x65092
f. TXT x65093
f. TXT x65094
f. TXT x65095
f. TXT x65096
f. TXT x65097
f. TXT x65098
f. TXT x65099
f. TXT x65100
f. TXT x65101
f. TXT x65102
f. TXT x65103
f. TXT x65104
f. TXT x65105
f. TXT x65106
f. TXT x65107
f. TXT x65108
f. TXT x65109
f. TXT x65110
f. TXT x65111
f. TXT x65112
f. TXT x65113
f. TXT x65114
f. TXT x65115
f. TXT x65116
f. TXT x65117
f. TXT x65118
f. TXT x65119
f. TXT x65120
f. TXT x65121
f. TXT x65122
f. TXT x65123
f. TXT x65124
f. TXT x65125
f. TXT x65126
f. TXT x65127
f. TXT x65128
f. TXT x65129
f. TXT x65130
f. TXT x65131
f. TXT x65132
f. TXT x65133
f. TXT x65134
f. TXT x65135
f. TXT x65136
f. TXT x65137
f. TXT x65138
f. TXT x65139
f. TXT x65140
f. TXT x65141
f. TXT x65142
f. TXT x65143
f. TXT x65144
f. TXT x65145
f. TXT x65146
f. TXT x65147
f. TXT x65148
f. TXT x65149
f. TXT x65150
f. TXT x65151
y0 TXT x bc
f. TXT x65153
f. TXT x65154
f. TXT x65155
f. TXT x65156
f. TXT x65157
f. TXT x65158
f. TXT x65159
f. TXT x65160
f. TXT x65161
f. TXT x65162
f. TXT x65163
f. TXT x65164
f. TXT x65165
f. TXT x65166
f. TXT x65167
f. TXT x65168
f. TXT x65169
f. TXT x65170
f. TXT x65171
f. TXT x65172
f. TXT x65173
f. TXT x65174
f. TXT x65175
f. TXT x65176
f. TXT x65177
f. TXT x65178
f. TXT x65179
f. TXT x65180
f. TXT x65181
f. TXT x65182
f. TXT x65183
f. TXT x65184
f. TXT x65185
f. TXT x65186
f. TXT x65187
f. TXT x65188
f. TXT x65189
f. TXT x65190
f. TXT x65191
f. TXT x65192
f. TXT x65193
f. TXT x65194
f. TXT x65195
f. TXT x65196
f. TXT x65197
f. TXT x65198
f. TXT x65199
f. TXT x65200
f. TXT x65201
f. TXT x65202
f. TXT x65203
f. TXT x65204
f. TXT x65205
f. TXT x65206
f. TXT x65207
f. TXT x65208
f. TXT x65209
f. TXT x65210
f. TXT x65211
f. TXT x65212
f. TXT x65213
f. TXT x65214
f. TXT x65215
; ca-
f. TXT x65217
f. TXT x65218
f. TXT x65219
f. TXT x65220
f. TXT x65221
f. TXT x65222
f. TXT x65223
f. TXT x65224
f. TXT x65225
f. TXT x65226
f. TXT x65227
f. TXT x65228
f. TXT x65229
f. TXT x65230
f. TXT x65231
f. TXT x65232
f. TXT x65233
f. TXT x65234
f. TXT x65235
f. TXT x65236
f. TXT x65237
f. TXT x65238
f. TXT x65239
f. TXT x65240
f. TXT x65241
f. TXT x65242
f. TXT x65243
f. TXT x65244
f. TXT x65245
f. TXT x65246
f. TXT x65247
f. TXT x65248
f. TXT x65249
f. TXT x65250
f. TXT x65251
f. TXT x65252
f. TXT x65253
f. TXT x65254
f. TXT x65255
f. TXT x65256
f. TXT x65257
f. TXT x65258
f. TXT x65259
f. TXT x65260
f. TXT x65261
f. TXT x65262
f. TXT x65263
f. TXT x65264
f. TXT x65265
f. TXT x65266
f. TXT x65267
f. TXT x65268
f. TXT x65269
f. TXT x65270
f. TXT x65271
f. TXT x65272
f. TXT x65273
f. TXT x65274
f. TXT x65275
f. TXT x65276
f. TXT x65277
f. TXT x65278
f. TXT x65279
 A 0cza
f. TXT x65281
f. TXT x65282
f. TXT x65283
f. TXT x65284
f. TXT x65285
f. TXT x65286
f. TXT x65287
f. TXT x65288
f. TXT x65289
f. TXT x65290
f. TXT x65291
f. TXT x65292
f. TXT x65293
f. TXT x65294
f. TXT x65295
f. TXT x65296
f. TXT x65297
f. TXT x65298
f. TXT x65299
f. TXT x65300
f. TXT x65301
f. TXT x65302
f. TXT x65303
f. TXT x65304
f. TXT x65305
f. TXT x65306
f. TXT x65307
f. TXT x65308
f. TXT x65309
f. TXT x65310
f. TXT x65311
f. TXT x65312
f. TXT x65313
f. TXT x65314
f. TXT x65315
f. TXT x65316
f. TXT x65317
f. TXT x65318
f. TXT x65319
f. TXT x65320
f. TXT x65321
f. TXT x65322
f. TXT x65323
f. TXT x65324
f. TXT x65325
f. TXT x65326
f. TXT x65327
f. TXT x65328
f. TXT x65329
f. TXT x65330
f. TXT x65331
f. TXT x65332
f. TXT x65333
f. TXT x65334
f. TXT x65335
f. TXT x65336
f. TXT x65337
f. TXT x65338
f. TXT x65339
f. TXT x65340
f. TXT x65341
f. TXT x65342
f. TXT x65343
@ A byy xb-c
f. TXT x65345
f. TXT x65346
f. TXT x65347
f. TXT x65348
f. TXT x65349
f. TXT x65350
f. TXT x65351
f. TXT x65352
f. TXT x65353
f. TXT x65354
f. TXT x65355
f. TXT x65356
f. TXT x65357
f. TXT x65358
f. TXT x65359
f. TXT x65360
f. TXT x65361
f. TXT x65362
f. TXT x65363
f. TXT x65364
f. TXT x65365
f. TXT x65366
f. TXT x65367
f. TXT x65368
f. TXT x65369
f. TXT x65370
f. TXT x65371
f. TXT x65372
f. TXT x65373
f. TXT x65374
f. TXT x65375
f. TXT x65376
f. TXT x65377
f. TXT x65378
f. TXT x65379
f. TXT x65380
f. TXT x65381
f. TXT x65382
f. TXT x65383
f. TXT x65384
f. TXT x65385
f. TXT x65386
f. TXT x65387
f. TXT x65388
f. TXT x65389
f. TXT x65390
f. TXT x65391
f. TXT x65392
f. TXT x65393
f. TXT x65394
f. TXT x65395
f. TXT x65396
f. TXT x65397
f. TXT x65398
f. TXT x65399
f. TXT x65400
f. TXT x65401
f. TXT x65402
f. TXT x65403
f. TXT x65404
f. TXT x65405
f. TXT x65406
f. TXT x65407
z*-c.zc-. NS y0
f. TXT x65409
f. TXT x65410
f. TXT x65411
f. TXT x65412
f. TXT x65413
f. TXT x65414
f. TXT x65415
f. TXT x65416
f. TXT x65417
f. TXT x65418
f. TXT x65419
f. TXT x65420
f. TXT x65421
f. TXT x65422
f. TXT x65423
f. TXT x65424
f. TXT x65425
f. TXT x65426
f. TXT x65427
f. TXT x65428
f. TXT x65429
f. TXT x65430
f. TXT x65431
f. TXT x65432
f. TXT x65433
f. TXT x65434
f. TXT x65435
f. TXT x65436
f. TXT x65437
f. TXT x65438
f. TXT x65439
f. TXT x65440
f. TXT x65441
f. TXT x65442
f. TXT x65443
f. TXT x65444
f. TXT x65445
f. TXT x65446
f. TXT x65447
f. TXT x65448
f. TXT x65449
f. TXT x65450
f. TXT x65451
f. TXT x65452
f. TXT x65453
f. TXT x65454
f. TXT x65455
f. TXT x65456
f. TXT x65457
f. TXT x65458
f. TXT x65459
f. TXT x65460
f. TXT x65461
f. TXT x65462
f. TXT x65463
f. TXT x65464
f. TXT x65465
f. TXT x65466
f. TXT x65467
f. TXT x65468
f. TXT x65469
f. TXT x65470
f. TXT x65471

f. TXT x65473
f. TXT x65474
f. TXT x65475
f. TXT x65476
f. TXT x65477
f. TXT x65478
f. TXT x65479
f. TXT x65480
f. TXT x65481
f. TXT x65482
f. TXT x65483
f. TXT x65484
f. TXT x65485
f. TXT x65486
f. TXT x65487
f. TXT x65488
f. TXT x65489
f. TXT x65490
f. TXT x65491
f. TXT x65492
f. TXT x65493
f. TXT x65494
f. TXT x65495
f. TXT x65496
f. TXT x65497
f. TXT x65498
f. TXT x65499
f. TXT x65500
f. TXT x65501
f. TXT x65502
f. TXT x65503
f. TXT x65504
f. TXT x65505
f. TXT x65506
f. TXT x65507
f. TXT x65508
f. TXT x65509
f. TXT x65510
f. TXT x65511
f. TXT x65512
f. TXT x65513
f. TXT x65514
f. TXT x65515
f. TXT x65516
f. TXT x65517
f. TXT x65518
f. TXT x65519
f. TXT x65520
f. TXT x65521
f. TXT x65522
f. TXT x65523
f. TXT x65524
f. TXT x65525
f. TXT x65526
f. TXT x65527
f. TXT x65528
f. TXT x65529
f. TXT x65530
f. TXT x65531
f. TXT x65532
f. TXT x65533
f. TXT x65534
f. TXT x65535
b*za. A *ybz x*y bybc
f. TXT x65537
f. TXT x65538
f. TXT x65539
f. TXT x65540
f. TXT x65541
f. TXT x65542
f. TXT x65543
f. TXT x65544
f. TXT x65545
f. TXT x65546
f. TXT x65547
f. TXT x65548
f. TXT x65549
f. TXT x65550
f. TXT x65551
f. TXT x65552
f. TXT x65553
f. TXT x65554
f. TXT x65555
f. TXT x65556
f. TXT x65557
f. TXT x65558
f. TXT x65559
f. TXT x65560
f. TXT x65561
f. TXT x65562
f. TXT x65563
f. TXT x65564
f. TXT x65565
f. TXT x65566
f. TXT x65567
f. TXT x65568
f. TXT x65569
f. TXT x65570
f. TXT x65571
f. TXT x65572
f. TXT x65573
f. TXT x65574
f. TXT x65575
f. TXT x65576
f. TXT x65577
f. TXT x65578
f. TXT x65579
f. TXT x65580
f. TXT x65581
f. TXT x65582
f. TXT x65583
f. TXT x65584
f. TXT x65585
f. TXT x65586
f. TXT x65587
f. TXT x65588
f. TXT x65589
f. TXT x65590
f. TXT x65591
f. TXT x65592
f. TXT x65593
f. TXT x65594
f. TXT x65595
f. TXT x65596
f. TXT x65597
f. TXT x65598
f. TXT x65599
-z0x.y. TXT 00x* 0
f. TXT x65601
f. TXT x65602
f. TXT x65603
f. TXT x65604
f. TXT x65605
f. TXT x65606
f. TXT x65607
f. TXT x65608
f. TXT x65609
f. TXT x65610
f. TXT x65611
f. TXT x65612
f. TXT x65613
f. TXT x65614
f. TXT x65615
f. TXT x65616
f. TXT x65617
f. TXT x65618
f. TXT x65619
f. TXT x65620
f. TXT x65621
f. TXT x65622
f. TXT x65623
f. TXT x65624
f. TXT x65625
f. TXT x65626
f. TXT x65627
f. TXT x65628
f. TXT x65629
f. TXT x65630
f. TXT x65631
f. TXT x65632
f. TXT x65633
f. TXT x65634
f. TXT x65635
f. TXT x65636
f. TXT x65637
f. TXT x65638
f. TXT x65639
f. TXT x65640
f. TXT x65641
f. TXT x65642
f. TXT x65643
f. TXT x65644
f. TXT x65645
f. TXT x65646
f. TXT x65647
f. TXT x65648
f. TXT x65649
f. TXT x65650
f. TXT x65651
f. TXT x65652
f. TXT x65653
f. TXT x65654
f. TXT x65655
f. TXT x65656
f. TXT x65657
f. TXT x65658
f. TXT x65659
f. TXT x65660
f. TXT x65661
f. TXT x65662
f. TXT x65663
- NS c0b ya*-
f. TXT x65665
f. TXT x65666
f. TXT x65667
f. TXT x65668
f. TXT x65669
f. TXT x65670
f. TXT x65671
f. TXT x65672
f. TXT x65673
f. TXT x65674
f. TXT x65675
f. TXT x65676
f. TXT x65677
f. TXT x65678
f. TXT x65679
f. TXT x65680
f. TXT x65681
f. TXT x65682
f. TXT x65683
f. TXT x65684
f. TXT x65685
f. TXT x65686
f. TXT x65687
f. TXT x65688
f. TXT x65689
f. TXT x65690
f. TXT x65691
f. TXT x65692
f. TXT x65693
f. TXT x65694
f. TXT x65695
f. TXT x65696
f. TXT x65697
f. TXT x65698
f. TXT x65699
f. TXT x65700
f. TXT x65701
f. TXT x65702
f. TXT x65703
f. TXT x65704
f. TXT x65705
f. TXT x65706
f. TXT x65707
f. TXT x65708
f. TXT x65709
f. TXT x65710
f. TXT x65711
f. TXT x65712
f. TXT x65713
f. TXT x65714
f. TXT x65715
f. TXT x65716
f. TXT x65717
f. TXT x65718
f. TXT x65719
f. TXT x65720
f. TXT x65721
f. TXT x65722
f. TXT x65723
f. TXT x65724
f. TXT x65725
f. TXT x65726
f. TXT x65727
 TXT -zz b*0
f. TXT x65729
f. TXT x65730
f. TXT x65731
f. TXT x65732
f. TXT x65733
f. TXT x65734
f. TXT x65735
f. TXT x65736
f. TXT x65737
f. TXT x65738
f. TXT x65739
f. TXT x65740
f. TXT x65741
f. TXT x65742
f. TXT x65743
f. TXT x65744
f. TXT x65745
f. TXT x65746
f. TXT x65747
f. TXT x65748
f. TXT x65749
f. TXT x65750
f. TXT x65751
f. TXT x65752
f. TXT x65753
f. TXT x65754
f. TXT x65755
f. TXT x65756
f. TXT x65757
f. TXT x65758
f. TXT x65759
f. TXT x65760
f. TXT x65761
f. TXT x65762
f. TXT x65763
f. TXT x65764
f. TXT x65765
f. TXT x65766
f. TXT x65767
f. TXT x65768
f. TXT x65769
f. TXT x65770
f. TXT x65771
f. TXT x65772
f. TXT x65773
f. TXT x65774
f. TXT x65775
f. TXT x65776
f. TXT x65777
f. TXT x65778
f. TXT x65779
f. TXT x65780
f. TXT x65781
f. TXT x65782
f. TXT x65783
f. TXT x65784
f. TXT x65785
f. TXT x65786
f. TXT x65787
f. TXT x65788
f. TXT x65789
f. TXT x65790
f. TXT x65791
z*ca. TXT *b yzy x-
f. TXT x65793
f. TXT x65794
f. TXT x65795
f. TXT x65796
f. TXT x65797
f. TXT x65798
f. TXT x65799
f. TXT x65800
f. TXT x65801
f. TXT x65802
f. TXT x65803
f. TXT x65804
f. TXT x65805
f. TXT x65806
f. TXT x65807
f. TXT x65808
f. TXT x65809
f. TXT x65810
f. TXT x65811
f. TXT x65812
f. TXT x65813
f. TXT x65814
f. TXT x65815
f. TXT x65816
f. TXT x65817
f. TXT x65818
f. TXT x65819
f. TXT x65820
f. TXT x65821
f. TXT x65822
f. TXT x65823
f. TXT x65824
f. TXT x65825
f. TXT x65826
f. TXT x65827
f. TXT x65828
f. TXT x65829
f. TXT x65830
f. TXT x65831
f. TXT x65832
f. TXT x65833
f. TXT x65834
f. TXT x65835
f. TXT x65836
f. TXT x65837
f. TXT x65838
f. TXT x65839
f. TXT x65840
f. TXT x65841
f. TXT x65842
f. TXT x65843
f. TXT x65844
f. TXT x65845
f. TXT x65846
f. TXT x65847
f. TXT x65848
f. TXT x65849
f. TXT x65850
f. TXT x65851
f. TXT x65852
f. TXT x65853
f. TXT x65854
f. TXT x65855
; bxcx
f. TXT x65857
f. TXT x65858
f. TXT x65859
f. TXT x65860
f. TXT x65861
f. TXT x65862
f. TXT x65863
f. TXT x65864
f. TXT x65865
f. TXT x65866
f. TXT x65867
f. TXT x65868
f. TXT x65869
f. TXT x65870
f. TXT x65871
f. TXT x65872
f. TXT x65873
f. TXT x65874
f. TXT x65875
f. TXT x65876
f. TXT x65877
f. TXT x65878
f. TXT x65879
f. TXT x65880
f. TXT x65881
f. TXT x65882
f. TXT x65883
f. TXT x65884
f. TXT x65885
f. TXT x65886
f. TXT x65887
f. TXT x65888
f. TXT x65889
f. TXT x65890
f. TXT x65891
f. TXT x65892
f. TXT x65893
f. TXT x65894
f. TXT x65895
f. TXT x65896
f. TXT x65897
f. TXT x65898
f. TXT x65899
f. TXT x65900
f. TXT x65901
f. TXT x65902
f. TXT x65903
f. TXT x65904
f. TXT x65905
f. TXT x65906
f. TXT x65907
f. TXT x65908
f. TXT x65909
f. TXT x65910
f. TXT x65911
f. TXT x65912
f. TXT x65913
f. TXT x65914
f. TXT x65915
f. TXT x65916
f. TXT x65917
f. TXT x65918
f. TXT x65919
 A xzbc
f. TXT x65921
f. TXT x65922
f. TXT x65923
f. TXT x65924
f. TXT x65925
f. TXT x65926
f. TXT x65927
f. TXT x65928
f. TXT x65929
f. TXT x65930
f. TXT x65931
f. TXT x65932
f. TXT x65933
f. TXT x65934
f. TXT x65935
f. TXT x65936
f. TXT x65937
f. TXT x65938
f. TXT x65939
f. TXT x65940
f. TXT x65941
f. TXT x65942
f. TXT x65943
f. TXT x65944
f. TXT x65945
f. TXT x65946
f. TXT x65947
f. TXT x65948
f. TXT x65949
f. TXT x65950
f. TXT x65951
f. TXT x65952
f. TXT x65953
f. TXT x65954
f. TXT x65955
f. TXT x65956
f. TXT x65957
f. TXT x65958
f. TXT x65959
f. TXT x65960
f. TXT x65961
f. TXT x65962
f. TXT x65963
f. TXT x65964
f. TXT x65965
f. TXT x65966
f. TXT x65967
f. TXT x65968
f. TXT x65969
f. TXT x65970
f. TXT x65971
f. TXT x65972
f. TXT x65973
f. TXT x65974
f. TXT x65975
f. TXT x65976
f. TXT x65977
f. TXT x65978
f. TXT x65979
f. TXT x65980
f. TXT x65981
f. TXT x65982
f. TXT x65983
az TXT 0xx 0*b* 0-
f. TXT x65985
f. TXT x65986
f. TXT x65987
f. TXT x65988
f. TXT x65989
f. TXT x65990
f. TXT x65991
f. TXT x65992
f. TXT x65993
f. TXT x65994
f. TXT x65995
f. TXT x65996
f. TXT x65997
f. TXT x65998
f. TXT x65999
f. TXT x66000
f. TXT x66001
f. TXT x66002
f. TXT x66003
f. TXT x66004
f. TXT x66005
f. TXT x66006
f. TXT x66007
f. TXT x66008
f. TXT x66009
f. TXT x66010
f. TXT x66011
f. TXT x66012
f. TXT x66013
f. TXT x66014
f. TXT x66015
f. TXT x66016
f. TXT x66017
f. TXT x66018
f. TXT x66019
f. TXT x66020
f. TXT x66021
f. TXT x66022
f. TXT x66023
f. TXT x66024
f. TXT x66025
f. TXT x66026
f. TXT x66027
f. TXT x66028
f. TXT x66029
f. TXT x66030
f. TXT x66031
f. TXT x66032
f. TXT x66033
f. TXT x66034
f. TXT x66035
f. TXT x66036
f. TXT x66037
f. TXT x66038
f. TXT x66039
f. TXT x66040
f. TXT x66041
f. TXT x66042
f. TXT x66043
f. TXT x66044
f. TXT x66045
f. TXT x66046
f. TXT x66047
by0 A 0xz
f. TXT x66049
f. TXT x66050
f. TXT x66051
f. TXT x66052
f. TXT x66053
f. TXT x66054
f. TXT x66055
f. TXT x66056
f. TXT x66057
f. TXT x66058
f. TXT x66059
f. TXT x66060
f. TXT x66061
f. TXT x66062
f. TXT x66063
f. TXT x66064
f. TXT x66065
f. TXT x66066
f. TXT x66067
f. TXT x66068
f. TXT x66069
f. TXT x66070
f. TXT x66071
f. TXT x66072
f. TXT x66073
f. TXT x66074
f. TXT x66075
f. TXT x66076
f. TXT x66077
f. TXT x66078
f. TXT x66079
f. TXT x66080
f. TXT x66081
f. TXT x66082
f. TXT x66083
f. TXT x66084
f. TXT x66085
f. TXT x66086
f. TXT x66087
f. TXT x66088
f. TXT x66089
f. TXT x66090
f. TXT x66091
f. TXT x66092
f. TXT x66093
f. TXT x66094
f. TXT x66095
f. TXT x66096
f. TXT x66097
f. TXT x66098
f. TXT x66099
f. TXT x66100
f. TXT x66101
f. TXT x66102
f. TXT x66103
f. TXT x66104
f. TXT x66105
f. TXT x66106
f. TXT x66107
f. TXT x66108
f. TXT x66109
f. TXT x66110
f. TXT x66111
-b.*xb-. A 0y a0a
f. TXT x66113
f. TXT x66114
f. TXT x66115
f. TXT x66116
f. TXT x66117
f. TXT x66118
f. TXT x66119
f. TXT x66120
f. TXT x66121
f. TXT x66122
f. TXT x66123
f. TXT x66124
f. TXT x66125
f. TXT x66126
f. TXT x66127
f. TXT x66128
f. TXT x66129
f. TXT x66130
f. TXT x66131
f. TXT x66132
f. TXT x66133
f. TXT x66134
f. TXT x66135
f. TXT x66136
f. TXT x66137
f. TXT x66138
f. TXT x66139
f. TXT x66140
f. TXT x66141
f. TXT x66142
f. TXT x66143
f. TXT x66144
f. TXT x66145
f. TXT x66146
f. TXT x66147
f. TXT x66148
f. TXT x66149
f. TXT x66150
f. TXT x66151
f. TXT x66152
f. TXT x66153
f. TXT x66154
f. TXT x66155
f. TXT x66156
f. TXT x66157
f. TXT x66158
f. TXT x66159
f. TXT x66160
f. TXT x66161
f. TXT x66162
f. TXT x66163
f. TXT x66164
f. TXT x66165
f. TXT x66166
f. TXT x66167
f. TXT x66168
f. TXT x66169
f. TXT x66170
f. TXT x66171
f. TXT x66172
f. TXT x66173
f. TXT x66174
f. TXT x66175
; *
f. TXT x66177
f. TXT x66178
f. TXT x66179
f. TXT x66180
f. TXT x66181
f. TXT x66182
f. TXT x66183
f. TXT x66184
f. TXT x66185
f. TXT x66186
f. TXT x66187
f. TXT x66188
f. TXT x66189
f. TXT x66190
f. TXT x66191
f. TXT x66192
f. TXT x66193
f. TXT x66194
f. TXT x66195
f. TXT x66196
f. TXT x66197
f. TXT x66198
f. TXT x66199
f. TXT x66200
f. TXT x66201
f. TXT x66202
f. TXT x66203
f. TXT x66204
f. TXT x66205
f. TXT x66206
f. TXT x66207
f. TXT x66208
f. TXT x66209
f. TXT x66210
f. TXT x66211
f. TXT x66212
f. TXT x66213
f. TXT x66214
f. TXT x66215
f. TXT x66216
f. TXT x66217
f. TXT x66218
f. TXT x66219
f. TXT x66220
f. TXT x66221
f. TXT x66222
f. TXT x66223
f. TXT x66224
f. TXT x66225
f. TXT x66226
f. TXT x66227
f. TXT x66228
f. TXT x66229
f. TXT x66230
f. TXT x66231
f. TXT x66232
f. TXT x66233
f. TXT x66234
f. TXT x66235
f. TXT x66236
f. TXT x66237
f. TXT x66238
f. TXT x66239

f. TXT x66241
f. TXT x66242
f. TXT x66243
f. TXT x66244
f. TXT x66245
f. TXT x66246
f. TXT x66247
f. TXT x66248
f. TXT x66249
f. TXT x66250
f. TXT x66251
f. TXT x66252
f. TXT x66253
f. TXT x66254
f. TXT x66255
f. TXT x66256
f. TXT x66257
f. TXT x66258
f. TXT x66259
f. TXT x66260
f. TXT x66261
f. TXT x66262
f. TXT x66263
f. TXT x66264
f. TXT x66265
f. TXT x66266
f. TXT x66267
f. TXT x66268
f. TXT x66269
f. TXT x66270
f. TXT x66271
f. TXT x66272
f. TXT x66273
f. TXT x66274
f. TXT x66275
f. TXT x66276
f. TXT x66277
f. TXT x66278
f. TXT x66279
f. TXT x66280
f. TXT x66281
f. TXT x66282
f. TXT x66283
f. TXT x66284
f. TXT x66285
f. TXT x66286
f. TXT x66287
f. TXT x66288
f. TXT x66289
f. TXT x66290
f. TXT x66291
f. TXT x66292
f. TXT x66293
f. TXT x66294
f. TXT x66295
f. TXT x66296
f. TXT x66297
f. TXT x66298
f. TXT x66299
f. TXT x66300
f. TXT x66301
f. TXT x66302
f. TXT x66303
@ TXT c-a * *
f. TXT x66305
f. TXT x66306
f. TXT x66307
f. TXT x66308
f. TXT x66309
f. TXT x66310
f. TXT x66311
f. TXT x66312
f. TXT x66313
f. TXT x66314
f. TXT x66315
f. TXT x66316
f. TXT x66317
f. TXT x66318
f. TXT x66319
f. TXT x66320
f. TXT x66321
f. TXT x66322
f. TXT x66323
f. TXT x66324
f. TXT x66325
f. TXT x66326
f. TXT x66327
f. TXT x66328
f. TXT x66329
f. TXT x66330
f. TXT x66331
f. TXT x66332
f. TXT x66333
f. TXT x66334
f. TXT x66335
f. TXT x66336
f. TXT x66337
f. TXT x66338
f. TXT x66339
f. TXT x66340
f. TXT x66341
f. TXT x66342
f. TXT x66343
f. TXT x66344
f. TXT x66345
f. TXT x66346
f. TXT x66347
f. TXT x66348
f. TXT x66349
f. TXT x66350
f. TXT x66351
f. TXT x66352
f. TXT x66353
f. TXT x66354
f. TXT x66355
f. TXT x66356
f. TXT x66357
f. TXT x66358
f. TXT x66359
f. TXT x66360
f. TXT x66361
f. TXT x66362
f. TXT x66363
f. TXT x66364
f. TXT x66365
f. TXT x66366
f. TXT x66367
; zb
f. TXT x66369
f. TXT x66370
f. TXT x66371
f. TXT x66372
f. TXT x66373
f. TXT x66374
f. TXT x66375
f. TXT x66376
f. TXT x66377
f. TXT x66378
f. TXT x66379
f. TXT x66380
f. TXT x66381
f. TXT x66382
f. TXT x66383
f. TXT x66384
f. TXT x66385
f. TXT x66386
f. TXT x66387
f. TXT x66388
f. TXT x66389
f. TXT x66390
f. TXT x66391
f. TXT x66392
f. TXT x66393
f. TXT x66394
f. TXT x66395
f. TXT x66396
f. TXT x66397
f. TXT x66398
f. TXT x66399
f. TXT x66400
f. TXT x66401
f. TXT x66402
f. TXT x66403
f. TXT x66404
f. TXT x66405
f. TXT x66406
f. TXT x66407
f. TXT x66408
f. TXT x66409
f. TXT x66410
f. TXT x66411
f. TXT x66412
f. TXT x66413
f. TXT x66414
f. TXT x66415
f. TXT x66416
f. TXT x66417
f. TXT x66418
f. TXT x66419
f. TXT x66420
f. TXT x66421
f. TXT x66422
f. TXT x66423
f. TXT x66424
f. TXT x66425
f. TXT x66426
f. TXT x66427
f. TXT x66428
f. TXT x66429
f. TXT x66430
f. TXT x66431
 A ay-0
f. TXT x66433
f. TXT x66434
f. TXT x66435
f. TXT x66436
f. TXT x66437
f. TXT x66438
f. TXT x66439
f. TXT x66440
f. TXT x66441
f. TXT x66442
f. TXT x66443
f. TXT x66444
f. TXT x66445
f. TXT x66446
f. TXT x66447
f. TXT x66448
f. TXT x66449
f. TXT x66450
f. TXT x66451
f. TXT x66452
f. TXT x66453
f. TXT x66454
f. TXT x66455
f. TXT x66456
f. TXT x66457
f. TXT x66458
f. TXT x66459
f. TXT x66460
f. TXT x66461
f. TXT x66462
f. TXT x66463
f. TXT x66464
f. TXT x66465
f. TXT x66466
f. TXT x66467
f. TXT x66468
f. TXT x66469
f. TXT x66470
f. TXT x66471
f. TXT x66472
f. TXT x66473
f. TXT x66474
f. TXT x66475
f. TXT x66476
f. TXT x66477
f. TXT x66478
f. TXT x66479
f. TXT x66480
f. TXT x66481
f. TXT x66482
f. TXT x66483
f. TXT x66484
f. TXT x66485
f. TXT x66486
f. TXT x66487
f. TXT x66488
f. TXT x66489
f. TXT x66490
f. TXT x66491
f. TXT x66492
f. TXT x66493
f. TXT x66494
f. TXT x66495

f. TXT x66497
f. TXT x66498
f. TXT x66499
f. TXT x66500
f. TXT x66501
f. TXT x66502
f. TXT x66503
f. TXT x66504
f. TXT x66505
f. TXT x66506
f. TXT x66507
f. TXT x66508
f. TXT x66509
f. TXT x66510
f. TXT x66511
f. TXT x66512
f. TXT x66513
f. TXT x66514
f. TXT x66515
f. TXT x66516
f. TXT x66517
f. TXT x66518
f. TXT x66519
f. TXT x66520
f. TXT x66521
f. TXT x66522
f. TXT x66523
f. TXT x66524
f. TXT x66525
f. TXT x66526
f. TXT x66527
f. TXT x66528
f. TXT x66529
f. TXT x66530
f. TXT x66531
f. TXT x66532
f. TXT x66533
f. TXT x66534
f. TXT x66535
f. TXT x66536
f. TXT x66537
f. TXT x66538
f. TXT x66539
f. TXT x66540
f. TXT x66541
f. TXT x66542
f. TXT x66543
f. TXT x66544
f. TXT x66545
f. TXT x66546
f. TXT x66547
f. TXT x66548
f. TXT x66549
f. TXT x66550
f. TXT x66551
f. TXT x66552
f. TXT x66553
f. TXT x66554
f. TXT x66555
f. TXT x66556
f. TXT x66557
f. TXT x66558
f. TXT x66559
; ycx
f. TXT x66561
f. TXT x66562
f. TXT x66563
f. TXT x66564
f. TXT x66565
f. TXT x66566
f. TXT x66567
f. TXT x66568
f. TXT x66569
f. TXT x66570
f. TXT x66571
f. TXT x66572
f. TXT x66573
f. TXT x66574
f. TXT x66575
f. TXT x66576
f. TXT x66577
f. TXT x66578
f. TXT x66579
f. TXT x66580
f. TXT x66581
f. TXT x66582
f. TXT x66583
f. TXT x66584
f. TXT x66585
f. TXT x66586
f. TXT x66587
f. TXT x66588
f. TXT x66589
f. TXT x66590
f. TXT x66591
f. TXT x66592
f. TXT x66593
f. TXT x66594
f. TXT x66595
f. TXT x66596
f. TXT x66597
f. TXT x66598
f. TXT x66599
f. TXT x66600
f. TXT x66601
f. TXT x66602
f. TXT x66603
f. TXT x66604
f. TXT x66605
f. TXT x66606
f. TXT x66607
f. TXT x66608
f. TXT x66609
f. TXT x66610
f. TXT x66611
f. TXT x66612
f. TXT x66613
f. TXT x66614
f. TXT x66615
f. TXT x66616
f. TXT x66617
f. TXT x66618
f. TXT x66619
f. TXT x66620
f. TXT x66621
f. TXT x66622
f. TXT x66623

f. TXT x66625
f. TXT x66626
f. TXT x66627
f. TXT x66628
f. TXT x66629
f. TXT x66630
f. TXT x66631
f. TXT x66632
f. TXT x66633
f. TXT x66634
f. TXT x66635
f. TXT x66636
f. TXT x66637
f. TXT x66638
f. TXT x66639
f. TXT x66640
f. TXT x66641
f. TXT x66642
f. TXT x66643
f. TXT x66644
f. TXT x66645
f. TXT x66646
f. TXT x66647
f. TXT x66648
f. TXT x66649
f. TXT x66650
f. TXT x66651
f. TXT x66652
f. TXT x66653
f. TXT x66654
f. TXT x66655
f. TXT x66656
f. TXT x66657
f. TXT x66658
f. TXT x66659
f. TXT x66660
f. TXT x66661
f. TXT x66662
f. TXT x66663
f. TXT x66664
f. TXT x66665
f. TXT x66666
f. TXT x66667
f. TXT x66668
f. TXT x66669
f. TXT x66670
f. TXT x66671
f. TXT x66672
f. TXT x66673
f. TXT x66674
f. TXT x66675
f. TXT x66676
f. TXT x66677
f. TXT x66678
f. TXT x66679
f. TXT x66680
f. TXT x66681
f. TXT x66682
f. TXT x66683
f. TXT x66684
f. TXT x66685
f. TXT x66686
f. TXT x66687
-byb TXT ** *cx-
f. TXT x66689
f. TXT x66690
f. TXT x66691
f. TXT x66692
f. TXT x66693
f. TXT x66694
f. TXT x66695
f. TXT x66696
f. TXT x66697
f. TXT x66698
f. TXT x66699
f. TXT x66700
f. TXT x66701
f. TXT x66702
f. TXT x66703
f. TXT x66704
f. TXT x66705
f. TXT x66706
f. TXT x66707
f. TXT x66708
f. TXT x66709
f. TXT x66710
f. TXT x66711
f. TXT x66712
f. TXT x66713
f. TXT x66714
f. TXT x66715
f. TXT x66716
f. TXT x66717
f. TXT x66718
f. TXT x66719
f. TXT x66720
f. TXT x66721
f. TXT x66722
f. TXT x66723
f. TXT x66724
f. TXT x66725
f. TXT x66726
f. TXT x66727
f. TXT x66728
f. TXT x66729
f. TXT x66730
f. TXT x66731
f. TXT x66732
f. TXT x66733
f. TXT x66734
f. TXT x66735
f. TXT x66736
f. TXT x66737
f. TXT x66738
f. TXT x66739
f. TXT x66740
f. TXT x66741
f. TXT x66742
f. TXT x66743
f. TXT x66744
f. TXT x66745
f. TXT x66746
f. TXT x66747
f. TXT x66748
f. TXT x66749
f. TXT x66750
f. TXT x66751
$TTL 1415510819
f. TXT x66753
f. TXT x66754
f. TXT x66755
f. TXT x66756
f. TXT x66757
f. TXT x66758
f. TXT x66759
f. TXT x66760
f. TXT x66761
f. TXT x66762
f. TXT x66763
f. TXT x66764
f. TXT x66765
f. TXT x66766
f. TXT x66767
f. TXT x66768
f. TXT x66769
f. TXT x66770
f. TXT x66771
f. TXT x66772
f. TXT x66773
f. TXT x66774
f. TXT x66775
f. TXT x66776
f. TXT x66777
f. TXT x66778
f. TXT x66779
f. TXT x66780
f. TXT x66781
f. TXT x66782
f. TXT x66783
f. TXT x66784
f. TXT x66785
f. TXT x66786
f. TXT x66787
f. TXT x66788
f. TXT x66789
f. TXT x66790
f. TXT x66791
f. TXT x66792
f. TXT x66793
f. TXT x66794
f. TXT x66795
f. TXT x66796
f. TXT x66797
f. TXT x66798
f. TXT x66799
f. TXT x66800
f. TXT x66801
f. TXT x66802
f. TXT x66803
f. TXT x66804
f. TXT x66805
f. TXT x66806
f. TXT x66807
f. TXT x66808
f. TXT x66809
f. TXT x66810
f. TXT x66811
f. TXT x66812
f. TXT x66813
f. TXT x66814
f. TXT x66815

f. TXT x66817
f. TXT x66818
f. TXT x66819
f. TXT x66820
f. TXT x66821
f. TXT x66822
f. TXT x66823
f. TXT x66824
f. TXT x66825
f. TXT x66826
f. TXT x66827
f. TXT x66828
f. TXT x66829
f. TXT x66830
f. TXT x66831
f. TXT x66832
f. TXT x66833
f. TXT x66834
f. TXT x66835
f. TXT x66836
f. TXT x66837
f. TXT x66838
f. TXT x66839
f. TXT x66840
f. TXT x66841
f. TXT x66842
f. TXT x66843
f. TXT x66844
f. TXT x66845
f. TXT x66846
f. TXT x66847
f. TXT x66848
f. TXT x66849
f. TXT x66850
f. TXT x66851
f. TXT x66852
f. TXT x66853
f. TXT x66854
f. TXT x66855
f. TXT x66856
f. TXT x66857
f. TXT x66858
f. TXT x66859
f. TXT x66860
f. TXT x66861
f. TXT x66862
f. TXT x66863
f. TXT x66864
f. TXT x66865
f. TXT x66866
f. TXT x66867
f. TXT x66868
f. TXT x66869
f. TXT x66870
f. TXT x66871
f. TXT x66872
f. TXT x66873
f. TXT x66874
f. TXT x66875
f. TXT x66876
f. TXT x66877
f. TXT x66878
f. TXT x66879
@ TXT bycy
f. TXT x66881
f. TXT x66882
f. TXT x66883
f. TXT x66884
f. TXT x66885
f. TXT x66886
f. TXT x66887
f. TXT x66888
f. TXT x66889
f. TXT x66890
f. TXT x66891
f. TXT x66892
f. TXT x66893
f. TXT x66894
f. TXT x66895
f. TXT x66896
f. TXT x66897
f. TXT x66898
f. TXT x66899
f. TXT x66900
f. TXT x66901
f. TXT x66902
f. TXT x66903
f. TXT x66904
f. TXT x66905
f. TXT x66906
f. TXT x66907
f. TXT x66908
f. TXT x66909
f. TXT x66910
f. TXT x66911
f. TXT x66912
f. TXT x66913
f. TXT x66914
f. TXT x66915
f. TXT x66916
f. TXT x66917
f. TXT x66918
f. TXT x66919
f. TXT x66920
f. TXT x66921
f. TXT x66922
f. TXT x66923
f. TXT x66924
f. TXT x66925
f. TXT x66926
f. TXT x66927
f. TXT x66928
f. TXT x66929
f. TXT x66930
f. TXT x66931
f. TXT x66932
f. TXT x66933
f. TXT x66934
f. TXT x66935
f. TXT x66936
f. TXT x66937
f. TXT x66938
f. TXT x66939
f. TXT x66940
f. TXT x66941
f. TXT x66942
f. TXT x66943
 A y c0*y
f. TXT x66945
f. TXT x66946
f. TXT x66947
f. TXT x66948
f. TXT x66949
f. TXT x66950
f. TXT x66951
f. TXT x66952
f. TXT x66953
f. TXT x66954
f. TXT x66955
f. TXT x66956
f. TXT x66957
f. TXT x66958
f. TXT x66959
f. TXT x66960
f. TXT x66961
f. TXT x66962
f. TXT x66963
f. TXT x66964
f. TXT x66965
f. TXT x66966
f. TXT x66967
f. TXT x66968
f. TXT x66969
f. TXT x66970
f. TXT x66971
f. TXT x66972
f. TXT x66973
f. TXT x66974
f. TXT x66975
f. TXT x66976
f. TXT x66977
f. TXT x66978
f. TXT x66979
f. TXT x66980
f. TXT x66981
f. TXT x66982
f. TXT x66983
f. TXT x66984
f. TXT x66985
f. TXT x66986
f. TXT x66987
f. TXT x66988
f. TXT x66989
f. TXT x66990
f. TXT x66991
f. TXT x66992
f. TXT x66993
f. TXT x66994
f. TXT x66995
f. TXT x66996
f. TXT x66997
f. TXT x66998
f. TXT x66999
f. TXT x67000
f. TXT x67001
f. TXT x67002
f. TXT x67003
f. TXT x67004
f. TXT x67005
f. TXT x67006
f. TXT x67007
@ TXT * bzb *z**
f. TXT x67009
f. TXT x67010
f. TXT x67011
f. TXT x67012
f. TXT x67013
f. TXT x67014
f. TXT x67015
f. TXT x67016
f. TXT x67017
f. TXT x67018
f. TXT x67019
f. TXT x67020
f. TXT x67021
f. TXT x67022
f. TXT x67023
f. TXT x67024
f. TXT x67025
f. TXT x67026
f. TXT x67027
f. TXT x67028
f. TXT x67029
f. TXT x67030
f. TXT x67031
f. TXT x67032
f. TXT x67033
f. TXT x67034
f. TXT x67035
f. TXT x67036
f. TXT x67037
f. TXT x67038
f. TXT x67039
f. TXT x67040
f. TXT x67041
f. TXT x67042
f. TXT x67043
f. TXT x67044
f. TXT x67045
f. TXT x67046
f. TXT x67047
f. TXT x67048
f. TXT x67049
f. TXT x67050
f. TXT x67051
f. TXT x67052
f. TXT x67053
f. TXT x67054
f. TXT x67055
f. TXT x67056
f. TXT x67057
f. TXT x67058
f. TXT x67059
f. TXT x67060
f. TXT x67061
f. TXT x67062
f. TXT x67063
f. TXT x67064
f. TXT x67065
f. TXT x67066
f. TXT x67067
f. TXT x67068
f. TXT x67069
f. TXT x67070
f. TXT x67071
$TTL 10621
f. TXT x67073
f. TXT x67074
f. TXT x67075
f. TXT x67076
f. TXT x67077
f. TXT x67078
f. TXT x67079
f. TXT x67080
f. TXT x67081
f. TXT x67082
f. TXT x67083
f. TXT x67084
f. TXT x67085
f. TXT x67086
f. TXT x67087
f. TXT x67088
f. TXT x67089
f. TXT x67090
f. TXT x67091
f. TXT x67092
f. TXT x67093
f. TXT x67094
f. TXT x67095
f. TXT x67096
f. TXT x67097
f. TXT x67098
f. TXT x67099
f. TXT x67100
f. TXT x67101
f. TXT x67102
f. TXT x67103
f. TXT x67104
f. TXT x67105
f. TXT x67106
f. TXT x67107
f. TXT x67108
f. TXT x67109
f. TXT x67110
f. TXT x67111
f. TXT x67112
f. TXT x67113
f. TXT x67114
f. TXT x67115
f. TXT x67116
f. TXT x67117
f. TXT x67118
f. TXT x67119
f. TXT x67120
f. TXT x67121
f. TXT x67122
f. TXT x67123
f. TXT x67124
f. TXT x67125
f. TXT x67126
f. TXT x67127
f. TXT x67128
f. TXT x67129
f. TXT x67130
f. TXT x67131
f. TXT x67132
f. TXT x67133
f. TXT x67134
f. TXT x67135
xc. TXT *b0 *yb c-
f. TXT x67137
f. TXT x67138
f. TXT x67139
f. TXT x67140
f. TXT x67141
f. TXT x67142
f. TXT x67143
f. TXT x67144
f. TXT x67145
f. TXT x67146
f. TXT x67147
f. TXT x67148
f. TXT x67149
f. TXT x67150
f. TXT x67151
f. TXT x67152
f. TXT x67153
f. TXT x67154
f. TXT x67155
f. TXT x67156
f. TXT x67157
f. TXT x67158
f. TXT x67159
f. TXT x67160
f. TXT x67161
f. TXT x67162
f. TXT x67163
f. TXT x67164
f. TXT x67165
f. TXT x67166
f. TXT x67167
f. TXT x67168
f. TXT x67169
f. TXT x67170
f. TXT x67171
f. TXT x67172
f. TXT x67173
f. TXT x67174
f. TXT x67175
f. TXT x67176
f. TXT x67177
f. TXT x67178
f. TXT x67179
f. TXT x67180
f. TXT x67181
f. TXT x67182
f. TXT x67183
f. TXT x67184
f. TXT x67185
f. TXT x67186
f. TXT x67187
f. TXT x67188
f. TXT x67189
f. TXT x67190
f. TXT x67191
f. TXT x67192
f. TXT x67193
f. TXT x67194
f. TXT x67195
f. TXT x67196
f. TXT x67197
f. TXT x67198
f. TXT x67199
 TXT ay byb*
f. TXT x67201
f. TXT x67202
f. TXT x67203
f. TXT x67204
f. TXT x67205
f. TXT x67206
f. TXT x67207
f. TXT x67208
f. TXT x67209
f. TXT x67210
f. TXT x67211
f. TXT x67212
f. TXT x67213
f. TXT x67214
f. TXT x67215
f. TXT x67216
f. TXT x67217
f. TXT x67218
f. TXT x67219
f. TXT x67220
f. TXT x67221
f. TXT x67222
f. TXT x67223
f. TXT x67224
f. TXT x67225
f. TXT x67226
f. TXT x67227
f. TXT x67228
f. TXT x67229
f. TXT x67230
f. TXT x67231
f. TXT x67232
f. TXT x67233
f. TXT x67234
f. TXT x67235
f. TXT x67236
f. TXT x67237
f. TXT x67238
f. TXT x67239
f. TXT x67240
f. TXT x67241
f. TXT x67242
f. TXT x67243
f. TXT x67244
f. TXT x67245
f. TXT x67246
f. TXT x67247
f. TXT x67248
f. TXT x67249
f. TXT x67250
f. TXT x67251
f. TXT x67252
f. TXT x67253
f. TXT x67254
f. TXT x67255
f. TXT x67256
f. TXT x67257
f. TXT x67258
f. TXT x67259
f. TXT x67260
f. TXT x67261
f. TXT x67262
f. TXT x67263
@ TXT xcy* cby0 a-b
f. TXT x67265
f. TXT x67266
f. TXT x67267
f. TXT x67268
f. TXT x67269
f. TXT x67270
f. TXT x67271
f. TXT x67272
f. TXT x67273
f. TXT x67274
f. TXT x67275
f. TXT x67276
f. TXT x67277
f. TXT x67278
f. TXT x67279
f. TXT x67280
f. TXT x67281
f. TXT x67282
f. TXT x67283
f. TXT x67284
f. TXT x67285
f. TXT x67286
f. TXT x67287
f. TXT x67288
f. TXT x67289
f. TXT x67290
f. TXT x67291
f. TXT x67292
f. TXT x67293
f. TXT x67294
f. TXT x67295
f. TXT x67296
f. TXT x67297
f. TXT x67298
f. TXT x67299
f. TXT x67300
f. TXT x67301
f. TXT x67302
f. TXT x67303
f. TXT x67304
f. TXT x67305
f. TXT x67306
f. TXT x67307
f. TXT x67308
f. TXT x67309
f. TXT x67310
f. TXT x67311
f. TXT x67312
f. TXT x67313
f. TXT x67314
f. TXT x67315
f. TXT x67316
f. TXT x67317
f. TXT x67318
f. TXT x67319
f. TXT x67320
f. TXT x67321
f. TXT x67322
f. TXT x67323
f. TXT x67324
f. TXT x67325
f. TXT x67326
f. TXT x67327
@ TXT 0y cc
f. TXT x67329
f. TXT x67330
f. TXT x67331
f. TXT x67332
f. TXT x67333
f. TXT x67334
f. TXT x67335
f. TXT x67336
f. TXT x67337
f. TXT x67338
f. TXT x67339
f. TXT x67340
f. TXT x67341
f. TXT x67342
f. TXT x67343
f. TXT x67344
f. TXT x67345
f. TXT x67346
f. TXT x67347
f. TXT x67348
f. TXT x67349
f. TXT x67350
f. TXT x67351
f. TXT x67352
f. TXT x67353
f. TXT x67354
f. TXT x67355
f. TXT x67356
f. TXT x67357
f. TXT x67358
f. TXT x67359
f. TXT x67360
f. TXT x67361
f. TXT x67362
f. TXT x67363
f. TXT x67364
f. TXT x67365
f. TXT x67366
f. TXT x67367
f. TXT x67368
f. TXT x67369
f. TXT x67370
f. TXT x67371
f. TXT x67372
f. TXT x67373
f. TXT x67374
f. TXT x67375
f. TXT x67376
f. TXT x67377
f. TXT x67378
f. TXT x67379
f. TXT x67380
f. TXT x67381
f. TXT x67382
f. TXT x67383
f. TXT x67384
f. TXT x67385
f. TXT x67386
f. TXT x67387
f. TXT x67388
f. TXT x67389
f. TXT x67390
f. TXT x67391
@ TXT *
f. TXT x67393
f. TXT x67394
f. TXT x67395
f. TXT x67396
f. TXT x67397
f. TXT x67398
f. TXT x67399
f. TXT x67400
f. TXT x67401
f. TXT x67402
f. TXT x67403
f. TXT x67404
f. TXT x67405
f. TXT x67406
f. TXT x67407
f. TXT x67408
f. TXT x67409
f. TXT x67410
f. TXT x67411
f. TXT x67412
f. TXT x67413
f. TXT x67414
f. TXT x67415
f. TXT x67416
f. TXT x67417
f. TXT x67418
f. TXT x67419
f. TXT x67420
f. TXT x67421
f. TXT x67422
f. TXT x67423
f. TXT x67424
f. TXT x67425
f. TXT x67426
f. TXT x67427
f. TXT x67428
f. TXT x67429
f. TXT x67430
f. TXT x67431
f. TXT x67432
f. TXT x67433
f. TXT x67434
f. TXT x67435
f. TXT x67436
f. TXT x67437
f. TXT x67438
f. TXT x67439
f. TXT x67440
f. TXT x67441
f. TXT x67442
f. TXT x67443
f. TXT x67444
f. TXT x67445
f. TXT x67446
f. TXT x67447
f. TXT x67448
f. TXT x67449
f. TXT x67450
f. TXT x67451
f. TXT x67452
f. TXT x67453
f. TXT x67454
f. TXT x67455
ybc-.-*a0. TXT y *
f. TXT x67457
f. TXT x67458
f. TXT x67459
f. TXT x67460
f. TXT x67461
f. TXT x67462
f. TXT x67463
f. TXT x67464
f. TXT x67465
f. TXT x67466
f. TXT x67467
f. TXT x67468
f. TXT x67469
f. TXT x67470
f. TXT x67471
f. TXT x67472
f. TXT x67473
f. TXT x67474
f. TXT x67475
f. TXT x67476
f. TXT x67477
f. TXT x67478
f. TXT x67479
f. TXT x67480
f. TXT x67481
f. TXT x67482
f. TXT x67483
f. TXT x67484
f. TXT x67485
f. TXT x67486
f. TXT x67487
f. TXT x67488
f. TXT x67489
f. TXT x67490
f. TXT x67491
f. TXT x67492
f. TXT x67493
f. TXT x67494
f. TXT x67495
f. TXT x67496
f. TXT x67497
f. TXT x67498
f. TXT x67499
f. TXT x67500
f. TXT x67501
f. TXT x67502
f. TXT x67503
f. TXT x67504
f. TXT x67505
f. TXT x67506
f. TXT x67507
f. TXT x67508
f. TXT x67509
f. TXT x67510
f. TXT x67511
f. TXT x67512
f. TXT x67513
f. TXT x67514
f. TXT x67515
f. TXT x67516
f. TXT x67517
f. TXT x67518
f. TXT x67519

f. TXT x67521
f. TXT x67522
f. TXT x67523
f. TXT x67524
f. TXT x67525
f. TXT x67526
f. TXT x67527
f. TXT x67528
f. TXT x67529
f. TXT x67530
f. TXT x67531
f. TXT x67532
f. TXT x67533
f. TXT x67534
f. TXT x67535
f. TXT x67536
f. TXT x67537
f. TXT x67538
f. TXT x67539
f. TXT x67540
f. TXT x67541
f. TXT x67542
f. TXT x67543
f. TXT x67544
f. TXT x67545
f. TXT x67546
f. TXT x67547
f. TXT x67548
f. TXT x67549
f. TXT x67550
f. TXT x67551
f. TXT x67552
f. TXT x67553
f. TXT x67554
f. TXT x67555
f. TXT x67556
f. TXT x67557
f. TXT x67558
f. TXT x67559
f. TXT x67560
f. TXT x67561
f. TXT x67562
f. TXT x67563
f. TXT x67564
f. TXT x67565
f. TXT x67566
f. TXT x67567
f. TXT x67568
f. TXT x67569
f. TXT x67570
f. TXT x67571
f. TXT x67572
f. TXT x67573
f. TXT x67574
f. TXT x67575
f. TXT x67576
f. TXT x67577
f. TXT x67578
f. TXT x67579
f. TXT x67580
f. TXT x67581
f. TXT x67582
f. TXT x67583
x. A y acy*
f. TXT x67585
f. TXT x67586
f. TXT x67587
f. TXT x67588
f. TXT x67589
f. TXT x67590
f. TXT x67591
f. TXT x67592
f. TXT x67593
f. TXT x67594
f. TXT x67595
f. TXT x67596
f. TXT x67597
f. TXT x67598
f. TXT x67599
f. TXT x67600
f. TXT x67601
f. TXT x67602
f. TXT x67603
f. TXT x67604
f. TXT x67605
f. TXT x67606
f. TXT x67607
f. TXT x67608
f. TXT x67609
f. TXT x67610
f. TXT x67611
f. TXT x67612
f. TXT x67613
f. TXT x67614
f. TXT x67615
f. TXT x67616
f. TXT x67617
f. TXT x67618
f. TXT x67619
f. TXT x67620
f. TXT x67621
f. TXT x67622
f. TXT x67623
f. TXT x67624
f. TXT x67625
f. TXT x67626
f. TXT x67627
f. TXT x67628
f. TXT x67629
f. TXT x67630
f. TXT x67631
f. TXT x67632
f. TXT x67633
f. TXT x67634
f. TXT x67635
f. TXT x67636
f. TXT x67637
f. TXT x67638
f. TXT x67639
f. TXT x67640
f. TXT x67641
f. TXT x67642
f. TXT x67643
f. TXT x67644
f. TXT x67645
f. TXT x67646
f. TXT x67647
 NS 0y*
f. TXT x67649
f. TXT x67650
f. TXT x67651
f. TXT x67652
f. TXT x67653
f. TXT x67654
f. TXT x67655
f. TXT x67656
f. TXT x67657
f. TXT x67658
f. TXT x67659
f. TXT x67660
f. TXT x67661
f. TXT x67662
f. TXT x67663
f. TXT x67664
f. TXT x67665
f. TXT x67666
f. TXT x67667
f. TXT x67668
f. TXT x67669
f. TXT x67670
f. TXT x67671
f. TXT x67672
f. TXT x67673
f. TXT x67674
f. TXT x67675
f. TXT x67676
f. TXT x67677
f. TXT x67678
f. TXT x67679
f. TXT x67680
f. TXT x67681
f. TXT x67682
f. TXT x67683
f. TXT x67684
f. TXT x67685
f. TXT x67686
f. TXT x67687
f. TXT x67688
f. TXT x67689
f. TXT x67690
f. TXT x67691
f. TXT x67692
f. TXT x67693
f. TXT x67694
f. TXT x67695
f. TXT x67696
f. TXT x67697
f. TXT x67698
f. TXT x67699
f. TXT x67700
f. TXT x67701
f. TXT x67702
f. TXT x67703
f. TXT x67704
f. TXT x67705
f. TXT x67706
f. TXT x67707
f. TXT x67708
f. TXT x67709
f. TXT x67710
f. TXT x67711
 TXT 0
f. TXT x67713
f. TXT x67714
f. TXT x67715
f. TXT x67716
f. TXT x67717
f. TXT x67718
f. TXT x67719
f. TXT x67720
f. TXT x67721
f. TXT x67722
f. TXT x67723
f. TXT x67724
f. TXT x67725
f. TXT x67726
f. TXT x67727
f. TXT x67728
f. TXT x67729
f. TXT x67730
f. TXT x67731
f. TXT x67732
f. TXT x67733
f. TXT x67734
f. TXT x67735
f. TXT x67736
f. TXT x67737
f. TXT x67738
f. TXT x67739
f. TXT x67740
f. TXT x67741
f. TXT x67742
f. TXT x67743
f. TXT x67744
f. TXT x67745
f. TXT x67746
f. TXT x67747
f. TXT x67748
f. TXT x67749
f. TXT x67750
f. TXT x67751
f. TXT x67752
f. TXT x67753
f. TXT x67754
f. TXT x67755
f. TXT x67756
f. TXT x67757
f. TXT x67758
f. TXT x67759
f. TXT x67760
f. TXT x67761
f. TXT x67762
f. TXT x67763
f. TXT x67764
f. TXT x67765
f. TXT x67766
f. TXT x67767
f. TXT x67768
f. TXT x67769
f. TXT x67770
f. TXT x67771
f. TXT x67772
f. TXT x67773
f. TXT x67774
f. TXT x67775
* NS *z -bxb b
f. TXT x67777
f. TXT x67778
f. TXT x67779
f. TXT x67780
f. TXT x67781
f. TXT x67782
f. TXT x67783
f. TXT x67784
f. TXT x67785
f. TXT x67786
f. TXT x67787
f. TXT x67788
f. TXT x67789
f. TXT x67790
f. TXT x67791
f. TXT x67792
f. TXT x67793
f. TXT x67794
f. TXT x67795
f. TXT x67796
f. TXT x67797
f. TXT x67798
f. TXT x67799
f. TXT x67800
f. TXT x67801
f. TXT x67802
f. TXT x67803
f. TXT x67804
f. TXT x67805
f. TXT x67806
f. TXT x67807
f. TXT x67808
f. TXT x67809
f. TXT x67810
f. TXT x67811
f. TXT x67812
f. TXT x67813
f. TXT x67814
f. TXT x67815
f. TXT x67816
f. TXT x67817
f. TXT x67818
f. TXT x67819
f. TXT x67820
f. TXT x67821
f. TXT x67822
f. TXT x67823
f. TXT x67824
f. TXT x67825
f. TXT x67826
f. TXT x67827
f. TXT x67828
f. TXT x67829
f. TXT x67830
f. TXT x67831
f. TXT x67832
f. TXT x67833
f. TXT x67834
f. TXT x67835
f. TXT x67836
f. TXT x67837
f. TXT x67838
f. TXT x67839

f. TXT x67841
f. TXT x67842
f. TXT x67843
f. TXT x67844
f. TXT x67845
f. TXT x67846
f. TXT x67847
f. TXT x67848
f. TXT x67849
f. TXT x67850
f. TXT x67851
f. TXT x67852
f. TXT x67853
f. TXT x67854
f. TXT x67855
f. TXT x67856
f. TXT x67857
f. TXT x67858
f. TXT x67859
f. TXT x67860
f. TXT x67861
f. TXT x67862
f. TXT x67863
f. TXT x67864
f. TXT x67865
f. TXT x67866
f. TXT x67867
f. TXT x67868
f. TXT x67869
f. TXT x67870
f. TXT x67871
f. TXT x67872
f. TXT x67873
f. TXT x67874
f. TXT x67875
f. TXT x67876
f. TXT x67877
f. TXT x67878
f. TXT x67879
f. TXT x67880
f. TXT x67881
f. TXT x67882
f. TXT x67883
f. TXT x67884
f. TXT x67885
f. TXT x67886
f. TXT x67887
f. TXT x67888
f. TXT x67889
f. TXT x67890
f. TXT x67891
f. TXT x67892
f. TXT x67893
f. TXT x67894
f. TXT x67895
f. TXT x67896
f. TXT x67897
f. TXT x67898
f. TXT x67899
f. TXT x67900
f. TXT x67901
f. TXT x67902
f. TXT x67903
@ A b--b * -
f. TXT x67905
f. TXT x67906
f. TXT x67907
f. TXT x67908
f. TXT x67909
f. TXT x67910
f. TXT x67911
f. TXT x67912
f. TXT x67913
f. TXT x67914
f. TXT x67915
f. TXT x67916
f. TXT x67917
f. TXT x67918
f. TXT x67919
f. TXT x67920
f. TXT x67921
f. TXT x67922
f. TXT x67923
f. TXT x67924
f. TXT x67925
f. TXT x67926
f. TXT x67927
f. TXT x67928
f. TXT x67929
f. TXT x67930
f. TXT x67931
f. TXT x67932
f. TXT x67933
f. TXT x67934
f. TXT x67935
f. TXT x67936
f. TXT x67937
f. TXT x67938
f. TXT x67939
f. TXT x67940
f. TXT x67941
f. TXT x67942
f. TXT x67943
f. TXT x67944
f. TXT x67945
f. TXT x67946
f. TXT x67947
f. TXT x67948
f. TXT x67949
f. TXT x67950
f. TXT x67951
f. TXT x67952
f. TXT x67953
f. TXT x67954
f. TXT x67955
f. TXT x67956
f. TXT x67957
f. TXT x67958
f. TXT x67959
f. TXT x67960
f. TXT x67961
f. TXT x67962
f. TXT x67963
f. TXT x67964
f. TXT x67965
f. TXT x67966
f. TXT x67967
$TTL 1134960624
f. TXT x67969
f. TXT x67970
f. TXT x67971
f. TXT x67972
f. TXT x67973
f. TXT x67974
f. TXT x67975
f. TXT x67976
f. TXT x67977
f. TXT x67978
f. TXT x67979
f. TXT x67980
f. TXT x67981
f. TXT x67982
f. TXT x67983
f. TXT x67984
f. TXT x67985
f. TXT x67986
f. TXT x67987
f. TXT x67988
f. TXT x67989
f. TXT x67990
f. TXT x67991
f. TXT x67992
f. TXT x67993
f. TXT x67994
f. TXT x67995
f. TXT x67996
f. TXT x67997
f. TXT x67998
f. TXT x67999
f. TXT x68000
f. TXT x68001
f. TXT x68002
f. TXT x68003
f. TXT x68004
f. TXT x68005
f. TXT x68006
f. TXT x68007
f. TXT x68008
f. TXT x68009
f. TXT x68010
f. TXT x68011
f. TXT x68012
f. TXT x68013
f. TXT x68014
f. TXT x68015
f. TXT x68016
f. TXT x68017
f. TXT x68018
f. TXT x68019
f. TXT x68020
f. TXT x68021
f. TXT x68022
f. TXT x68023
f. TXT x68024
f. TXT x68025
f. TXT x68026
f. TXT x68027
f. TXT x68028
f. TXT x68029
f. TXT x68030
f. TXT x68031
-.cb. TXT 0z
f. TXT x68033
f. TXT x68034
f. TXT x68035
f. TXT x68036
f. TXT x68037
f. TXT x68038
f. TXT x68039
f. TXT x68040
f. TXT x68041
f. TXT x68042
f. TXT x68043
f. TXT x68044
f. TXT x68045
f. TXT x68046
f. TXT x68047
f. TXT x68048
f. TXT x68049
f. TXT x68050
f. TXT x68051
f. TXT x68052
f. TXT x68053
f. TXT x68054
f. TXT x68055
f. TXT x68056
f. TXT x68057
f. TXT x68058
f. TXT x68059
f. TXT x68060
f. TXT x68061
f. TXT x68062
f. TXT x68063
f. TXT x68064
f. TXT x68065
f. TXT x68066
f. TXT x68067
f. TXT x68068
f. TXT x68069
f. TXT x68070
f. TXT x68071
f. TXT x68072
f. TXT x68073
f. TXT x68074
f. TXT x68075
f. TXT x68076
f. TXT x68077
f. TXT x68078
f. TXT x68079
f. TXT x68080
f. TXT x68081
f. TXT x68082
f. TXT x68083
f. TXT x68084
f. TXT x68085
f. TXT x68086
f. TXT x68087
f. TXT x68088
f. TXT x68089
f. TXT x68090
f. TXT x68091
f. TXT x68092
f. TXT x68093
f. TXT x68094
f. TXT x68095
 TXT zy * by
f. TXT x68097
f. TXT x68098
f. TXT x68099
f. TXT x68100
f. TXT x68101
f. TXT x68102
f. TXT x68103
f. TXT x68104
f. TXT x68105
f. TXT x68106
f. TXT x68107
f. TXT x68108
f. TXT x68109
f. TXT x68110
f. TXT x68111
f. TXT x68112
f. TXT x68113
f. TXT x68114
f. TXT x68115
f. TXT x68116
f. TXT x68117
f. TXT x68118
f. TXT x68119
f. TXT x68120
f. TXT x68121
f. TXT x68122
f. TXT x68123
f. TXT x68124
f. TXT x68125
f. TXT x68126
f. TXT x68127
f. TXT x68128
f. TXT x68129
f. TXT x68130
f. TXT x68131
f. TXT x68132
f. TXT x68133
f. TXT x68134
f. TXT x68135
f. TXT x68136
f. TXT x68137
f. TXT x68138
f. TXT x68139
f. TXT x68140
f. TXT x68141
f. TXT x68142
f. TXT x68143
f. TXT x68144
f. TXT x68145
f. TXT x68146
f. TXT x68147
f. TXT x68148
f. TXT x68149
f. TXT x68150
f. TXT x68151
f. TXT x68152
f. TXT x68153
f. TXT x68154
f. TXT x68155
f. TXT x68156
f. TXT x68157
f. TXT x68158
f. TXT x68159
--*. A x b-zx -za
f. TXT x68161
f. TXT x68162
f. TXT x68163
f. TXT x68164
f. TXT x68165
f. TXT x68166
f. TXT x68167
f. TXT x68168
f. TXT x68169
f. TXT x68170
f. TXT x68171
f. TXT x68172
f. TXT x68173
f. TXT x68174
f. TXT x68175
f. TXT x68176
f. TXT x68177
f. TXT x68178
f. TXT x68179
f. TXT x68180
f. TXT x68181
f. TXT x68182
f. TXT x68183
f. TXT x68184
f. TXT x68185
f. TXT x68186
f. TXT x68187
f. TXT x68188
f. TXT x68189
f. TXT x68190
f. TXT x68191
f. TXT x68192
f. TXT x68193
f. TXT x68194
f. TXT x68195
f. TXT x68196
f. TXT x68197
f. TXT x68198
f. TXT x68199
f. TXT x68200
f. TXT x68201
f. TXT x68202
f. TXT x68203
f. TXT x68204
f. TXT x68205
f. TXT x68206
f. TXT x68207
f. TXT x68208
f. TXT x68209
f. TXT x68210
f. TXT x68211
f. TXT x68212
f. TXT x68213
f. TXT x68214
f. TXT x68215
f. TXT x68216
f. TXT x68217
f. TXT x68218
f. TXT x68219
f. TXT x68220
f. TXT x68221
f. TXT x68222
f. TXT x68223

f. TXT x68225
f. TXT x68226
f. TXT x68227
f. TXT x68228
f. TXT x68229
f. TXT x68230
f. TXT x68231
f. TXT x68232
f. TXT x68233
f. TXT x68234
f. TXT x68235
f. TXT x68236
f. TXT x68237
f. TXT x68238
f. TXT x68239
f. TXT x68240
f. TXT x68241
f. TXT x68242
f. TXT x68243
f. TXT x68244
f. TXT x68245
f. TXT x68246
f. TXT x68247
f. TXT x68248
f. TXT x68249
f. TXT x68250
f. TXT x68251
f. TXT x68252
f. TXT x68253
f. TXT x68254
f. TXT x68255
f. TXT x68256
f. TXT x68257
f. TXT x68258
f. TXT x68259
f. TXT x68260
f. TXT x68261
f. TXT x68262
f. TXT x68263
f. TXT x68264
f. TXT x68265
f. TXT x68266
f. TXT x68267
f. TXT x68268
f. TXT x68269
f. TXT x68270
f. TXT x68271
f. TXT x68272
f. TXT x68273
f. TXT x68274
f. TXT x68275
f. TXT x68276
f. TXT x68277
f. TXT x68278
f. TXT x68279
f. TXT x68280
f. TXT x68281
f. TXT x68282
f. TXT x68283
f. TXT x68284
f. TXT x68285
f. TXT x68286
f. TXT x68287
 A *00z -yy0
f. TXT x68289
f. TXT x68290
f. TXT x68291
f. TXT x68292
f. TXT x68293
f. TXT x68294
f. TXT x68295
f. TXT x68296
f. TXT x68297
f. TXT x68298
f. TXT x68299
f. TXT x68300
f. TXT x68301
f. TXT x68302
f. TXT x68303
f. TXT x68304
f. TXT x68305
f. TXT x68306
f. TXT x68307
f. TXT x68308
f. TXT x68309
f. TXT x68310
f. TXT x68311
f. TXT x68312
f. TXT x68313
f. TXT x68314
f. TXT x68315
f. TXT x68316
f. TXT x68317
f. TXT x68318
f. TXT x68319
f. TXT x68320
f. TXT x68321
f. TXT x68322
f. TXT x68323
f. TXT x68324
f. TXT x68325
f. TXT x68326
f. TXT x68327
f. TXT x68328
f. TXT x68329
f. TXT x68330
f. TXT x68331
f. TXT x68332
f. TXT x68333
f. TXT x68334
f. TXT x68335
f. TXT x68336
f. TXT x68337
f. TXT x68338
f. TXT x68339
f. TXT x68340
f. TXT x68341
f. TXT x68342
f. TXT x68343
f. TXT x68344
f. TXT x68345
f. TXT x68346
f. TXT x68347
f. TXT x68348
f. TXT x68349
f. TXT x68350
f. TXT x68351
c*cx NS bb
f. TXT x68353
f. TXT x68354
f. TXT x68355
f. TXT x68356
f. TXT x68357
f. TXT x68358
f. TXT x68359
f. TXT x68360
f. TXT x68361
f. TXT x68362
f. TXT x68363
f. TXT x68364
f. TXT x68365
f. TXT x68366
f. TXT x68367
f. TXT x68368
f. TXT x68369
f. TXT x68370
f. TXT x68371
f. TXT x68372
f. TXT x68373
f. TXT x68374
f. TXT x68375
f. TXT x68376
f. TXT x68377
f. TXT x68378
f. TXT x68379
f. TXT x68380
f. TXT x68381
f. TXT x68382
f. TXT x68383
f. TXT x68384
f. TXT x68385
f. TXT x68386
f. TXT x68387
f. TXT x68388
f. TXT x68389
f. TXT x68390
f. TXT x68391
f. TXT x68392
f. TXT x68393
f. TXT x68394
f. TXT x68395
f. TXT x68396
f. TXT x68397
f. TXT x68398
f. TXT x68399
f. TXT x68400
f. TXT x68401
f. TXT x68402
f. TXT x68403
f. TXT x68404
f. TXT x68405
f. TXT x68406
f. TXT x68407
f. TXT x68408
f. TXT x68409
f. TXT x68410
f. TXT x68411
f. TXT x68412
f. TXT x68413
f. TXT x68414
f. TXT x68415
 A 0a* *a *0
f. TXT x68417
f. TXT x68418
f. TXT x68419
f. TXT x68420
f. TXT x68421
f. TXT x68422
f. TXT x68423
f. TXT x68424
f. TXT x68425
f. TXT x68426
f. TXT x68427
f. TXT x68428
f. TXT x68429
f. TXT x68430
f. TXT x68431
f. TXT x68432
f. TXT x68433
f. TXT x68434
f. TXT x68435
f. TXT x68436
f. TXT x68437
f. TXT x68438
f. TXT x68439
f. TXT x68440
f. TXT x68441
f. TXT x68442
f. TXT x68443
f. TXT x68444
f. TXT x68445
f. TXT x68446
f. TXT x68447
f. TXT x68448
f. TXT x68449
f. TXT x68450
f. TXT x68451
f. TXT x68452
f. TXT x68453
f. TXT x68454
f. TXT x68455
f. TXT x68456
f. TXT x68457
f. TXT x68458
f. TXT x68459
f. TXT x68460
f. TXT x68461
f. TXT x68462
f. TXT x68463
f. TXT x68464
f. TXT x68465
f. TXT x68466
f. TXT x68467
f. TXT x68468
f. TXT x68469
f. TXT x68470
f. TXT x68471
f. TXT x68472
f. TXT x68473
f. TXT x68474
f. TXT x68475
f. TXT x68476
f. TXT x68477
f. TXT x68478
f. TXT x68479

f. TXT x68481
f. TXT x68482
f. TXT x68483
f. TXT x68484
f. TXT x68485
f. TXT x68486
f. TXT x68487
f. TXT x68488
f. TXT x68489
f. TXT x68490
f. TXT x68491
f. TXT x68492
f. TXT x68493
f. TXT x68494
f. TXT x68495
f. TXT x68496
f. TXT x68497
f. TXT x68498
f. TXT x68499
f. TXT x68500
f. TXT x68501
f. TXT x68502
f. TXT x68503
f. TXT x68504
f. TXT x68505
f. TXT x68506
f. TXT x68507
f. TXT x68508
f. TXT x68509
f. TXT x68510
f. TXT x68511
f. TXT x68512
f. TXT x68513
f. TXT x68514
f. TXT x68515
f. TXT x68516
f. TXT x68517
f. TXT x68518
f. TXT x68519
f. TXT x68520
f. TXT x68521
f. TXT x68522
f. TXT x68523
f. TXT x68524
f. TXT x68525
f. TXT x68526
f. TXT x68527
f. TXT x68528
f. TXT x68529
f. TXT x68530
f. TXT x68531
f. TXT x68532
f. TXT x68533
f. TXT x68534
f. TXT x68535
f. TXT x68536
f. TXT x68537
f. TXT x68538
f. TXT x68539
f. TXT x68540
f. TXT x68541
f. TXT x68542
f. TXT x68543
$TTL 15829817
f. TXT x68545
f. TXT x68546
f. TXT x68547
f. TXT x68548
f. TXT x68549
f. TXT x68550
f. TXT x68551
f. TXT x68552
f. TXT x68553
f. TXT x68554
f. TXT x68555
f. TXT x68556
f. TXT x68557
f. TXT x68558
f. TXT x68559
f. TXT x68560
f. TXT x68561
f. TXT x68562
f. TXT x68563
f. TXT x68564
f. TXT x68565
f. TXT x68566
f. TXT x68567
f. TXT x68568
f. TXT x68569
f. TXT x68570
f. TXT x68571
f. TXT x68572
f. TXT x68573
f. TXT x68574
f. TXT x68575
f. TXT x68576
f. TXT x68577
f. TXT x68578
f. TXT x68579
f. TXT x68580
f. TXT x68581
f. TXT x68582
f. TXT x68583
f. TXT x68584
f. TXT x68585
f. TXT x68586
f. TXT x68587
f. TXT x68588
f. TXT x68589
f. TXT x68590
f. TXT x68591
f. TXT x68592
f. TXT x68593
f. TXT x68594
f. TXT x68595
f. TXT x68596
f. TXT x68597
f. TXT x68598
f. TXT x68599
f. TXT x68600
f. TXT x68601
f. TXT x68602
f. TXT x68603
f. TXT x68604
f. TXT x68605
f. TXT x68606
f. TXT x68607
$ORIGIN y0.yxa.
f. TXT x68609
f. TXT x68610
f. TXT x68611
f. TXT x68612
f. TXT x68613
f. TXT x68614
f. TXT x68615
f. TXT x68616
f. TXT x68617
f. TXT x68618
f. TXT x68619
f. TXT x68620
f. TXT x68621
f. TXT x68622
f. TXT x68623
f. TXT x68624
f. TXT x68625
f. TXT x68626
f. TXT x68627
f. TXT x68628
f. TXT x68629
f. TXT x68630
f. TXT x68631
f. TXT x68632
f. TXT x68633
f. TXT x68634
f. TXT x68635
f. TXT x68636
f. TXT x68637
f. TXT x68638
f. TXT x68639
f. TXT x68640
f. TXT x68641
f. TXT x68642
f. TXT x68643
f. TXT x68644
f. TXT x68645
f. TXT x68646
f. TXT x68647
f. TXT x68648
f. TXT x68649
f. TXT x68650
f. TXT x68651
f. TXT x68652
f. TXT x68653
f. TXT x68654
f. TXT x68655
f. TXT x68656
f. TXT x68657
f. TXT x68658
f. TXT x68659
f. TXT x68660
f. TXT x68661
f. TXT x68662
f. TXT x68663
f. TXT x68664
f. TXT x68665
f. TXT x68666
f. TXT x68667
f. TXT x68668
f. TXT x68669
f. TXT x68670
f. TXT x68671
$ORIGIN z.
f. TXT x68673
f. TXT x68674
f. TXT x68675
f. TXT x68676
f. TXT x68677
f. TXT x68678
f. TXT x68679
f. TXT x68680
f. TXT x68681
f. TXT x68682
f. TXT x68683
f. TXT x68684
f. TXT x68685
f. TXT x68686
f. TXT x68687
f. TXT x68688
f. TXT x68689
f. TXT x68690
f. TXT x68691
f. TXT x68692
f. TXT x68693
f. TXT x68694
f. TXT x68695
f. TXT x68696
f. TXT x68697
f. TXT x68698
f. TXT x68699
f. TXT x68700
f. TXT x68701
f. TXT x68702
f. TXT x68703
f. TXT x68704
f. TXT x68705
f. TXT x68706
f. TXT x68707
f. TXT x68708
f. TXT x68709
f. TXT x68710
f. TXT x68711
f. TXT x68712
f. TXT x68713
f. TXT x68714
f. TXT x68715
f. TXT x68716
f. TXT x68717
f. TXT x68718
f. TXT x68719
f. TXT x68720
f. TXT x68721
f. TXT x68722
f. TXT x68723
f. TXT x68724
f. TXT x68725
f. TXT x68726
f. TXT x68727
f. TXT x68728
f. TXT x68729
f. TXT x68730
f. TXT x68731
f. TXT x68732
f. TXT x68733
f. TXT x68734
f. TXT x68735
 TXT yc xy a
f. TXT x68737
f. TXT x68738
f. TXT x68739
f. TXT x68740
f. TXT x68741
f. TXT x68742
f. TXT x68743
f. TXT x68744
f. TXT x68745
f. TXT x68746
f. TXT x68747
f. TXT x68748
f. TXT x68749
f. TXT x68750
f. TXT x68751
f. TXT x68752
f. TXT x68753
f. TXT x68754
f. TXT x68755
f. TXT x68756
f. TXT x68757
f. TXT x68758
f. TXT x68759
f. TXT x68760
f. TXT x68761
f. TXT x68762
f. TXT x68763
f. TXT x68764
f. TXT x68765
f. TXT x68766
f. TXT x68767
f. TXT x68768
f. TXT x68769
f. TXT x68770
f. TXT x68771
f. TXT x68772
f. TXT x68773
f. TXT x68774
f. TXT x68775
f. TXT x68776
f. TXT x68777
f. TXT x68778
f. TXT x68779
f. TXT x68780
f. TXT x68781
f. TXT x68782
f. TXT x68783
f. TXT x68784
f. TXT x68785
f. TXT x68786
f. TXT x68787
f. TXT x68788
f. TXT x68789
f. TXT x68790
f. TXT x68791
f. TXT x68792
f. TXT x68793
f. TXT x68794
f. TXT x68795
f. TXT x68796
f. TXT x68797
f. TXT x68798
f. TXT x68799
@ TXT -0xy *y
f. TXT x68801
f. TXT x68802
f. TXT x68803
f. TXT x68804
f. TXT x68805
f. TXT x68806
f. TXT x68807
f. TXT x68808
f. TXT x68809
f. TXT x68810
f. TXT x68811
f. TXT x68812
f. TXT x68813
f. TXT x68814
f. TXT x68815
f. TXT x68816
f. TXT x68817
f. TXT x68818
f. TXT x68819
f. TXT x68820
f. TXT x68821
f. TXT x68822
f. TXT x68823
f. TXT x68824
f. TXT x68825
f. TXT x68826
f. TXT x68827
f. TXT x68828
f. TXT x68829
f. TXT x68830
f. TXT x68831
f. TXT x68832
f. TXT x68833
f. TXT x68834
f. TXT x68835
f. TXT x68836
f. TXT x68837
f. TXT x68838
f. TXT x68839
f. TXT x68840
f. TXT x68841
f. TXT x68842
f. TXT x68843
f. TXT x68844
f. TXT x68845
f. TXT x68846
f. TXT x68847
f. TXT x68848
f. TXT x68849
f. TXT x68850
f. TXT x68851
f. TXT x68852
f. TXT x68853
f. TXT x68854
f. TXT x68855
f. TXT x68856
f. TXT x68857
f. TXT x68858
f. TXT x68859
f. TXT x68860
f. TXT x68861
f. TXT x68862
f. TXT x68863

f. TXT x68865
f. TXT x68866
f. TXT x68867
f. TXT x68868
f. TXT x68869
f. TXT x68870
f. TXT x68871
f. TXT x68872
f. TXT x68873
f. TXT x68874
f. TXT x68875
f. TXT x68876
f. TXT x68877
f. TXT x68878
f. TXT x68879
f. TXT x68880
f. TXT x68881
f. TXT x68882
f. TXT x68883
f. TXT x68884
f. TXT x68885
f. TXT x68886
f. TXT x68887
f. TXT x68888
f. TXT x68889
f. TXT x68890
f. TXT x68891
f. TXT x68892
f. TXT x68893
f. TXT x68894
f. TXT x68895
f. TXT x68896
f. TXT x68897
f. TXT x68898
f. TXT x68899
f. TXT x68900
f. TXT x68901
f. TXT x68902
f. TXT x68903
f. TXT x68904
f. TXT x68905
f. TXT x68906
f. TXT x68907
f. TXT x68908
f. TXT x68909
f. TXT x68910
f. TXT x68911
f. TXT x68912
f. TXT x68913
f. TXT x68914
f. TXT x68915
f. TXT x68916
f. TXT x68917
f. TXT x68918
f. TXT x68919
f. TXT x68920
f. TXT x68921
f. TXT x68922
f. TXT x68923
f. TXT x68924
f. TXT x68925
f. TXT x68926
f. TXT x68927

f. TXT x68929
f. TXT x68930
f. TXT x68931
f. TXT x68932
f. TXT x68933
f. TXT x68934
f. TXT x68935
f. TXT x68936
f. TXT x68937
f. TXT x68938
f. TXT x68939
f. TXT x68940
f. TXT x68941
f. TXT x68942
f. TXT x68943
f. TXT x68944
f. TXT x68945
f. TXT x68946
f. TXT x68947
f. TXT x68948
f. TXT x68949
f. TXT x68950
f. TXT x68951
f. TXT x68952
f. TXT x68953
f. TXT x68954
f. TXT x68955
f. TXT x68956
f. TXT x68957
f. TXT x68958
f. TXT x68959
f. TXT x68960
f. TXT x68961
f. TXT x68962
f. TXT x68963
f. TXT x68964
f. TXT x68965
f. TXT x68966
f. TXT x68967
f. TXT x68968
f. TXT x68969
f. TXT x68970
f. TXT x68971
f. TXT x68972
f. TXT x68973
f. TXT x68974
f. TXT x68975
f. TXT x68976
f. TXT x68977
f. TXT x68978
f. TXT x68979
f. TXT x68980
f. TXT x68981
f. TXT x68982
f. TXT x68983
f. TXT x68984
f. TXT x68985
f. TXT x68986
f. TXT x68987
f. TXT x68988
f. TXT x68989
f. TXT x68990
f. TXT x68991
$ORIGIN cczy.bz.
f. TXT x68993
f. TXT x68994
f. TXT x68995
f. TXT x68996
f. TXT x68997
f. TXT x68998
f. TXT x68999
f. TXT x69000
f. TXT x69001
f. TXT x69002
f. TXT x69003
f. TXT x69004
f. TXT x69005
f. TXT x69006
f. TXT x69007
f. TXT x69008
f. TXT x69009
f. TXT x69010
f. TXT x69011
f. TXT x69012
f. TXT x69013
f. TXT x69014
f. TXT x69015
f. TXT x69016
f. TXT x69017
f. TXT x69018
f. TXT x69019
f. TXT x69020
f. TXT x69021
f. TXT x69022
f. TXT x69023
f. TXT x69024
f. TXT x69025
f. TXT x69026
f. TXT x69027
f. TXT x69028
f. TXT x69029
f. TXT x69030
f. TXT x69031
f. TXT x69032
f. TXT x69033
f. TXT x69034
f. TXT x69035
f. TXT x69036
f. TXT x69037
f. TXT x69038
f. TXT x69039
f. TXT x69040
f. TXT x69041
f. TXT x69042
f. TXT x69043
f. TXT x69044
f. TXT x69045
f. TXT x69046
f. TXT x69047
f. TXT x69048
f. TXT x69049
f. TXT x69050
f. TXT x69051
f. TXT x69052
f. TXT x69053
f. TXT x69054
f. TXT x69055
 A a0c za
f. TXT x69057
f. TXT x69058
f. TXT x69059
f. TXT x69060
f. TXT x69061
f. TXT x69062
f. TXT x69063
f. TXT x69064
f. TXT x69065
f. TXT x69066
f. TXT x69067
f. TXT x69068
f. TXT x69069
f. TXT x69070
f. TXT x69071
f. TXT x69072
f. TXT x69073
f. TXT x69074
f. TXT x69075
f. TXT x69076
f. TXT x69077
f. TXT x69078
f. TXT x69079
f. TXT x69080
f. TXT x69081
f. TXT x69082
f. TXT x69083
f. TXT x69084
f. TXT x69085
f. TXT x69086
f. TXT x69087
f. TXT x69088
f. TXT x69089
f. TXT x69090
f. TXT x69091
f. TXT x69092
f. TXT x69093
f. TXT x69094
f. TXT x69095
f. TXT x69096
f. TXT x69097
f. TXT x69098
f. TXT x69099
f. TXT x69100
f. TXT x69101
f. TXT x69102
f. TXT x69103
f. TXT x69104
f. TXT x69105
f. TXT x69106
f. TXT x69107
f. TXT x69108
f. TXT x69109
f. TXT x69110
f. TXT x69111
f. TXT x69112
f. TXT x69113
f. TXT x69114
f. TXT x69115
f. TXT x69116
f. TXT x69117
f. TXT x69118
f. TXT x69119
a-y NS yc 0a-
f. TXT x69121
f. TXT x69122
f. TXT x69123
f. TXT x69124
f. TXT x69125
f. TXT x69126
f. TXT x69127
f. TXT x69128
f. TXT x69129
f. TXT x69130
f. TXT x69131
f. TXT x69132
f. TXT x69133
f. TXT x69134
f. TXT x69135
f. TXT x69136
f. TXT x69137
f. TXT x69138
f. TXT x69139
f. TXT x69140
f. TXT x69141
f. TXT x69142
f. TXT x69143
f. TXT x69144
f. TXT x69145
f. TXT x69146
f. TXT x69147
f. TXT x69148
f. TXT x69149
f. TXT x69150
f. TXT x69151
f. TXT x69152
f. TXT x69153
f. TXT x69154
f. TXT x69155
f. TXT x69156
f. TXT x69157
f. TXT x69158
f. TXT x69159
f. TXT x69160
f. TXT x69161
f. TXT x69162
f. TXT x69163
f. TXT x69164
f. TXT x69165
f. TXT x69166
f. TXT x69167
f. TXT x69168
f. TXT x69169
f. TXT x69170
f. TXT x69171
f. TXT x69172
f. TXT x69173
f. TXT x69174
f. TXT x69175
f. TXT x69176
f. TXT x69177
f. TXT x69178
f. TXT x69179
f. TXT x69180
f. TXT x69181
f. TXT x69182
f. TXT x69183
 TXT azb* zzy z
f. TXT x69185
f. TXT x69186
f. TXT x69187
f. TXT x69188
f. TXT x69189
f. TXT x69190
f. TXT x69191
f. TXT x69192
f. TXT x69193
f. TXT x69194
f. TXT x69195
f. TXT x69196
f. TXT x69197
f. TXT x69198
f. TXT x69199
f. TXT x69200
f. TXT x69201
f. TXT x69202
f. TXT x69203
f. TXT x69204
f. TXT x69205
f. TXT x69206
f. TXT x69207
f. TXT x69208
f. TXT x69209
f. TXT x69210
f. TXT x69211
f. TXT x69212
f. TXT x69213
f. TXT x69214
f. TXT x69215
f. TXT x69216
f. TXT x69217
f. TXT x69218
f. TXT x69219
f. TXT x69220
f. TXT x69221
f. TXT x69222
f. TXT x69223
f. TXT x69224
f. TXT x69225
f. TXT x69226
f. TXT x69227
f. TXT x69228
f. TXT x69229
f. TXT x69230
f. TXT x69231
f. TXT x69232
f. TXT x69233
f. TXT x69234
f. TXT x69235
f. TXT x69236
f. TXT x69237
f. TXT x69238
f. TXT x69239
f. TXT x69240
f. TXT x69241
f. TXT x69242
f. TXT x69243
f. TXT x69244
f. TXT x69245
f. TXT x69246
f. TXT x69247
 TXT xxx 0czb azb
f. TXT x69249
f. TXT x69250
f. TXT x69251
f. TXT x69252
f. TXT x69253
f. TXT x69254
f. TXT x69255
f. TXT x69256
f. TXT x69257
f. TXT x69258
f. TXT x69259
f. TXT x69260
f. TXT x69261
f. TXT x69262
f. TXT x69263
f. TXT x69264
f. TXT x69265
f. TXT x69266
f. TXT x69267
f. TXT x69268
f. TXT x69269
f. TXT x69270
f. TXT x69271
f. TXT x69272
f. TXT x69273
f. TXT x69274
f. TXT x69275
f. TXT x69276
f. TXT x69277
f. TXT x69278
f. TXT x69279
f. TXT x69280
f. TXT x69281
f. TXT x69282
f. TXT x69283
f. TXT x69284
f. TXT x69285
f. TXT x69286
f. TXT x69287
f. TXT x69288
f. TXT x69289
f. TXT x69290
f. TXT x69291
f. TXT x69292
f. TXT x69293
f. TXT x69294
f. TXT x69295
f. TXT x69296
f. TXT x69297
f. TXT x69298
f. TXT x69299
f. TXT x69300
f. TXT x69301
f. TXT x69302
f. TXT x69303
f. TXT x69304
f. TXT x69305
f. TXT x69306
f. TXT x69307
f. TXT x69308
f. TXT x69309
f. TXT x69310
f. TXT x69311
yx0* NS 0cca *yx
f. TXT x69313
f. TXT x69314
f. TXT x69315
f. TXT x69316
f. TXT x69317
f. TXT x69318
f. TXT x69319
f. TXT x69320
f. TXT x69321
f. TXT x69322
f. TXT x69323
f. TXT x69324
f. TXT x69325
f. TXT x69326
f. TXT x69327
f. TXT x69328
f. TXT x69329
f. TXT x69330
f. TXT x69331
f. TXT x69332
f. TXT x69333
f. TXT x69334
f. TXT x69335
f. TXT x69336
f. TXT x69337
f. TXT x69338
f. TXT x69339
f. TXT x69340
f. TXT x69341
f. TXT x69342
f. TXT x69343
f. TXT x69344
f. TXT x69345
f. TXT x69346
f. TXT x69347
f. TXT x69348
f. TXT x69349
f. TXT x69350
f. TXT x69351
f. TXT x69352
f. TXT x69353
f. TXT x69354
f. TXT x69355
f. TXT x69356
f. TXT x69357
f. TXT x69358
f. TXT x69359
f. TXT x69360
f. TXT x69361
f. TXT x69362
f. TXT x69363
f. TXT x69364
f. TXT x69365
f. TXT x69366
f. TXT x69367
f. TXT x69368
f. TXT x69369
f. TXT x69370
f. TXT x69371
f. TXT x69372
f. TXT x69373
f. TXT x69374
f. TXT x69375
@ TXT c0x
f. TXT x69377
f. TXT x69378
f. TXT x69379
f. TXT x69380
f. TXT x69381
f. TXT x69382
f. TXT x69383
f. TXT x69384
f. TXT x69385
f. TXT x69386
f. TXT x69387
f. TXT x69388
f. TXT x69389
f. TXT x69390
f. TXT x69391
f. TXT x69392
f. TXT x69393
f. TXT x69394
f. TXT x69395
f. TXT x69396
f. TXT x69397
f. TXT x69398
f. TXT x69399
f. TXT x69400
f. TXT x69401
f. TXT x69402
f. TXT x69403
f. TXT x69404
f. TXT x69405
f. TXT x69406
f. TXT x69407
f. TXT x69408
f. TXT x69409
f. TXT x69410
f. TXT x69411
f. TXT x69412
f. TXT x69413
f. TXT x69414
f. TXT x69415
f. TXT x69416
f. TXT x69417
f. TXT x69418
f. TXT x69419
f. TXT x69420
f. TXT x69421
f. TXT x69422
f. TXT x69423
f. TXT x69424
f. TXT x69425
f. TXT x69426
f. TXT x69427
f. TXT x69428
f. TXT x69429
f. TXT x69430
f. TXT x69431
f. TXT x69432
f. TXT x69433
f. TXT x69434
f. TXT x69435
f. TXT x69436
f. TXT x69437
f. TXT x69438
f. TXT x69439
$TTL 108
f. TXT x69441
f. TXT x69442
f. TXT x69443
f. TXT x69444
f. TXT x69445
f. TXT x69446
f. TXT x69447
f. TXT x69448
f. TXT x69449
f. TXT x69450
f. TXT x69451
f. TXT x69452
f. TXT x69453
f. TXT x69454
f. TXT x69455
f. TXT x69456
f. TXT x69457
f. TXT x69458
f. TXT x69459
f. TXT x69460
f. TXT x69461
f. TXT x69462
f. TXT x69463
f. TXT x69464
f. TXT x69465
f. TXT x69466
f. TXT x69467
f. TXT x69468
f. TXT x69469
f. TXT x69470
f. TXT x69471
f. TXT x69472
f. TXT x69473
f. TXT x69474
f. TXT x69475
f. TXT x69476
f. TXT x69477
f. TXT x69478
f. TXT x69479
f. TXT x69480
f. TXT x69481
f. TXT x69482
f. TXT x69483
f. TXT x69484
f. TXT x69485
f. TXT x69486
f. TXT x69487
f. TXT x69488
f. TXT x69489
f. TXT x69490
f. TXT x69491
f. TXT x69492
f. TXT x69493
f. TXT x69494
f. TXT x69495
f. TXT x69496
f. TXT x69497
f. TXT x69498
f. TXT x69499
f. TXT x69500
f. TXT x69501
f. TXT x69502
f. TXT x69503
xcz* A 0
f. TXT x69505
f. TXT x69506
f. TXT x69507
f. TXT x69508
f. TXT x69509
f. TXT x69510
f. TXT x69511
f. TXT x69512
f. TXT x69513
f. TXT x69514
f. TXT x69515
f. TXT x69516
f. TXT x69517
f. TXT x69518
f. TXT x69519
f. TXT x69520
f. TXT x69521
f. TXT x69522
f. TXT x69523
f. TXT x69524
f. TXT x69525
f. TXT x69526
f. TXT x69527
f. TXT x69528
f. TXT x69529
f. TXT x69530
f. TXT x69531
f. TXT x69532
f. TXT x69533
f. TXT x69534
f. TXT x69535
f. TXT x69536
f. TXT x69537
f. TXT x69538
f. TXT x69539
f. TXT x69540
f. TXT x69541
f. TXT x69542
f. TXT x69543
f. TXT x69544
f. TXT x69545
f. TXT x69546
f. TXT x69547
f. TXT x69548
f. TXT x69549
f. TXT x69550
f. TXT x69551
f. TXT x69552
f. TXT x69553
f. TXT x69554
f. TXT x69555
f. TXT x69556
f. TXT x69557
f. TXT x69558
f. TXT x69559
f. TXT x69560
f. TXT x69561
f. TXT x69562
f. TXT x69563
f. TXT x69564
f. TXT x69565
f. TXT x69566
f. TXT x69567
$TTL 2147483648
f. TXT x69569
f. TXT x69570
f. TXT x69571
f. TXT x69572
f. TXT x69573
f. TXT x69574
f. TXT x69575
f. TXT x69576
f. TXT x69577
f. TXT x69578
f. TXT x69579
f. TXT x69580
f. TXT x69581
f. TXT x69582
f. TXT x69583
f. TXT x69584
f. TXT x69585
f. TXT x69586
f. TXT x69587
f. TXT x69588
f. TXT x69589
f. TXT x69590
f. TXT x69591
f. TXT x69592
f. TXT x69593
f. TXT x69594
f. TXT x69595
f. TXT x69596
f. TXT x69597
f. TXT x69598
f. TXT x69599
f. TXT x69600
f. TXT x69601
f. TXT x69602
f. TXT x69603
f. TXT x69604
f. TXT x69605
f. TXT x69606
f. TXT x69607
f. TXT x69608
f. TXT x69609
f. TXT x69610
f. TXT x69611
f. TXT x69612
f. TXT x69613
f. TXT x69614
f. TXT x69615
f. TXT x69616
f. TXT x69617
f. TXT x69618
f. TXT x69619
f. TXT x69620
f. TXT x69621
f. TXT x69622
f. TXT x69623
f. TXT x69624
f. TXT x69625
f. TXT x69626
f. TXT x69627
f. TXT x69628
f. TXT x69629
f. TXT x69630
f. TXT x69631
0 A bay ya0y a-zc
f. TXT x69633
f. TXT x69634
f. TXT x69635
f. TXT x69636
f. TXT x69637
f. TXT x69638
f. TXT x69639
f. TXT x69640
f. TXT x69641
f. TXT x69642
f. TXT x69643
f. TXT x69644
f. TXT x69645
f. TXT x69646
f. TXT x69647
f. TXT x69648
f. TXT x69649
f. TXT x69650
f. TXT x69651
f. TXT x69652
f. TXT x69653
f. TXT x69654
f. TXT x69655
f. TXT x69656
f. TXT x69657
f. TXT x69658
f. TXT x69659
f. TXT x69660
f. TXT x69661
f. TXT x69662
f. TXT x69663
f. TXT x69664
f. TXT x69665
f. TXT x69666
f. TXT x69667
f. TXT x69668
f. TXT x69669
f. TXT x69670
f. TXT x69671
f. TXT x69672
f. TXT x69673
f. TXT x69674
f. TXT x69675
f. TXT x69676
f. TXT x69677
f. TXT x69678
f. TXT x69679
f. TXT x69680
f. TXT x69681
f. TXT x69682
f. TXT x69683
f. TXT x69684
f. TXT x69685
f. TXT x69686
f. TXT x69687
f. TXT x69688
f. TXT x69689
f. TXT x69690
f. TXT x69691
f. TXT x69692
f. TXT x69693
f. TXT x69694
f. TXT x69695
@ TXT *z0 b0c
f. TXT x69697
f. TXT x69698
f. TXT x69699
f. TXT x69700
f. TXT x69701
f. TXT x69702
f. TXT x69703
f. TXT x69704
f. TXT x69705
f. TXT x69706
f. TXT x69707
f. TXT x69708
f. TXT x69709
f. TXT x69710
f. TXT x69711
f. TXT x69712
f. TXT x69713
f. TXT x69714
f. TXT x69715
f. TXT x69716
f. TXT x69717
f. TXT x69718
f. TXT x69719
f. TXT x69720
f. TXT x69721
f. TXT x69722
f. TXT x69723
f. TXT x69724
f. TXT x69725
f. TXT x69726
f. TXT x69727
f. TXT x69728
f. TXT x69729
f. TXT x69730
f. TXT x69731
f. TXT x69732
f. TXT x69733
f. TXT x69734
f. TXT x69735
f. TXT x69736
f. TXT x69737
f. TXT x69738
f. TXT x69739
f. TXT x69740
f. TXT x69741
f. TXT x69742
f. TXT x69743
f. TXT x69744
f. TXT x69745
f. TXT x69746
f. TXT x69747
f. TXT x69748
f. TXT x69749
f. TXT x69750
f. TXT x69751
f. TXT x69752
f. TXT x69753
f. TXT x69754
f. TXT x69755
f. TXT x69756
f. TXT x69757
f. TXT x69758
f. TXT x69759
 NS cc -y -
f. TXT x69761
f. TXT x69762
f. TXT x69763
f. TXT x69764
f. TXT x69765
f. TXT x69766
f. TXT x69767
f. TXT x69768
f. TXT x69769
f. TXT x69770
f. TXT x69771
f. TXT x69772
f. TXT x69773
f. TXT x69774
f. TXT x69775
f. TXT x69776
f. TXT x69777
f. TXT x69778
f. TXT x69779
f. TXT x69780
f. TXT x69781
f. TXT x69782
f. TXT x69783
f. TXT x69784
f. TXT x69785
f. TXT x69786
f. TXT x69787
f. TXT x69788
f. TXT x69789
f. TXT x69790
f. TXT x69791
f. TXT x69792
f. TXT x69793
f. TXT x69794
f. TXT x69795
f. TXT x69796
f. TXT x69797
f. TXT x69798
f. TXT x69799
f. TXT x69800
f. TXT x69801
f. TXT x69802
f. TXT x69803
f. TXT x69804
f. TXT x69805
f. TXT x69806
f. TXT x69807
f. TXT x69808
f. TXT x69809
f. TXT x69810
f. TXT x69811
f. TXT x69812
f. TXT x69813
f. TXT x69814
f. TXT x69815
f. TXT x69816
f. TXT x69817
f. TXT x69818
f. TXT x69819
f. TXT x69820
f. TXT x69821
f. TXT x69822
f. TXT x69823
$TTL 21817485
f. TXT x69825
f. TXT x69826
f. TXT x69827
f. TXT x69828
f. TXT x69829
f. TXT x69830
f. TXT x69831
f. TXT x69832
f. TXT x69833
f. TXT x69834
f. TXT x69835
f. TXT x69836
f. TXT x69837
f. TXT x69838
f. TXT x69839
f. TXT x69840
f. TXT x69841
f. TXT x69842
f. TXT x69843
f. TXT x69844
f. TXT x69845
f. TXT x69846
f. TXT x69847
f. TXT x69848
f. TXT x69849
f. TXT x69850
f. TXT x69851
f. TXT x69852
f. TXT x69853
f. TXT x69854
f. TXT x69855
f. TXT x69856
f. TXT x69857
f. TXT x69858
f. TXT x69859
f. TXT x69860
f. TXT x69861
f. TXT x69862
f. TXT x69863
f. TXT x69864
f. TXT x69865
f. TXT x69866
f. TXT x69867
f. TXT x69868
f. TXT x69869
f. TXT x69870
f. TXT x69871
f. TXT x69872
f. TXT x69873
f. TXT x69874
f. TXT x69875
f. TXT x69876
f. TXT x69877
f. TXT x69878
f. TXT x69879
f. TXT x69880
f. TXT x69881
f. TXT x69882
f. TXT x69883
f. TXT x69884
f. TXT x69885
f. TXT x69886
f. TXT x69887
 A ba 0cyx
f. TXT x69889
f. TXT x69890
f. TXT x69891
f. TXT x69892
f. TXT x69893
f. TXT x69894
f. TXT x69895
f. TXT x69896
f. TXT x69897
f. TXT x69898
f. TXT x69899
f. TXT x69900
f. TXT x69901
f. TXT x69902
f. TXT x69903
f. TXT x69904
f. TXT x69905
f. TXT x69906
f. TXT x69907
f. TXT x69908
f. TXT x69909
f. TXT x69910
f. TXT x69911
f. TXT x69912
f. TXT x69913
f. TXT x69914
f. TXT x69915
f. TXT x69916
f. TXT x69917
f. TXT x69918
f. TXT x69919
f. TXT x69920
f. TXT x69921
f. TXT x69922
f. TXT x69923
f. TXT x69924
f. TXT x69925
f. TXT x69926
f. TXT x69927
f. TXT x69928
f. TXT x69929
f. TXT x69930
f. TXT x69931
f. TXT x69932
f. TXT x69933
f. TXT x69934
f. TXT x69935
f. TXT x69936
f. TXT x69937
f. TXT x69938
f. TXT x69939
f. TXT x69940
f. TXT x69941
f. TXT x69942
f. TXT x69943
f. TXT x69944
f. TXT x69945
f. TXT x69946
f. TXT x69947
f. TXT x69948
f. TXT x69949
f. TXT x69950
f. TXT x69951
 NS x* ycx xcb
f. TXT x69953
f. TXT x69954
f. TXT x69955
f. TXT x69956
f. TXT x69957
f. TXT x69958
f. TXT x69959
f. TXT x69960
f. TXT x69961
f. TXT x69962
f. TXT x69963
f. TXT x69964
f. TXT x69965
f. TXT x69966
f. TXT x69967
f. TXT x69968
f. TXT x69969
f. TXT x69970
f. TXT x69971
f. TXT x69972
f. TXT x69973
f. TXT x69974
f. TXT x69975
f. TXT x69976
f. TXT x69977
f. TXT x69978
f. TXT x69979
f. TXT x69980
f. TXT x69981
f. TXT x69982
f. TXT x69983
f. TXT x69984
f. TXT x69985
f. TXT x69986
f. TXT x69987
f. TXT x69988
f. TXT x69989
f. TXT x69990
f. TXT x69991
f. TXT x69992
f. TXT x69993
f. TXT x69994
f. TXT x69995
f. TXT x69996
f. TXT x69997
f. TXT x69998
f. TXT x69999
f. TXT x70000
f. TXT x70001
f. TXT x70002
f. TXT x70003
f. TXT x70004
f. TXT x70005
f. TXT x70006
f. TXT x70007
f. TXT x70008
f. TXT x70009
f. TXT x70010
f. TXT x70011
f. TXT x70012
f. TXT x70013
f. TXT x70014
f. TXT x70015
@ NS a**c
f. TXT x70017
f. TXT x70018
f. TXT x70019
f. TXT x70020
f. TXT x70021
f. TXT x70022
f. TXT x70023
f. TXT x70024
f. TXT x70025
f. TXT x70026
f. TXT x70027
f. TXT x70028
f. TXT x70029
f. TXT x70030
f. TXT x70031
f. TXT x70032
f. TXT x70033
f. TXT x70034
f. TXT x70035
f. TXT x70036
f. TXT x70037
f. TXT x70038
f. TXT x70039
f. TXT x70040
f. TXT x70041
f. TXT x70042
f. TXT x70043
f. TXT x70044
f. TXT x70045
f. TXT x70046
f. TXT x70047
f. TXT x70048
f. TXT x70049
f. TXT x70050
f. TXT x70051
f. TXT x70052
f. TXT x70053
f. TXT x70054
f. TXT x70055
f. TXT x70056
f. TXT x70057
f. TXT x70058
f. TXT x70059
f. TXT x70060
f. TXT x70061
f. TXT x70062
f. TXT x70063
f. TXT x70064
f. TXT x70065
f. TXT x70066
f. TXT x70067
f. TXT x70068
f. TXT x70069
f. TXT x70070
f. TXT x70071
f. TXT x70072
f. TXT x70073
f. TXT x70074
f. TXT x70075
f. TXT x70076
f. TXT x70077
f. TXT x70078
f. TXT x70079
$TTL 1266653
f. TXT x70081
f. TXT x70082
f. TXT x70083
f. TXT x70084
f. TXT x70085
f. TXT x70086
f. TXT x70087
f. TXT x70088
f. TXT x70089
f. TXT x70090
f. TXT x70091
f. TXT x70092
f. TXT x70093
f. TXT x70094
f. TXT x70095
f. TXT x70096
f. TXT x70097
f. TXT x70098
f. TXT x70099
f. TXT x70100
f. TXT x70101
f. TXT x70102
f. TXT x70103
f. TXT x70104
f. TXT x70105
f. TXT x70106
f. TXT x70107
f. TXT x70108
f. TXT x70109
f. TXT x70110
f. TXT x70111
f. TXT x70112
f. TXT x70113
f. TXT x70114
f. TXT x70115
f. TXT x70116
f. TXT x70117
f. TXT x70118
f. TXT x70119
f. TXT x70120
f. TXT x70121
f. TXT x70122
f. TXT x70123
f. TXT x70124
f. TXT x70125
f. TXT x70126
f. TXT x70127
f. TXT x70128
f. TXT x70129
f. TXT x70130
f. TXT x70131
f. TXT x70132
f. TXT x70133
f. TXT x70134
f. TXT x70135
f. TXT x70136
f. TXT x70137
f. TXT x70138
f. TXT x70139
f. TXT x70140
f. TXT x70141
f. TXT x70142
f. TXT x70143
@ NS ** *y0z
f. TXT x70145
f. TXT x70146
f. TXT x70147
f. TXT x70148
f. TXT x70149
f. TXT x70150
f. TXT x70151
f. TXT x70152
f. TXT x70153
f. TXT x70154
f. TXT x70155
f. TXT x70156
f. TXT x70157
f. TXT x70158
f. TXT x70159
f. TXT x70160
f. TXT x70161
f. TXT x70162
f. TXT x70163
f. TXT x70164
f. TXT x70165
f. TXT x70166
f. TXT x70167
f. TXT x70168
f. TXT x70169
f. TXT x70170
f. TXT x70171
f. TXT x70172
f. TXT x70173
f. TXT x70174
f. TXT x70175
f. TXT x70176
f. TXT x70177
f. TXT x70178
f. TXT x70179
f. TXT x70180
f. TXT x70181
f. TXT x70182
f. TXT x70183
f. TXT x70184
f. TXT x70185
f. TXT x70186
f. TXT x70187
f. TXT x70188
f. TXT x70189
f. TXT x70190
f. TXT x70191
f. TXT x70192
f. TXT x70193
f. TXT x70194
f. TXT x70195
f. TXT x70196
f. TXT x70197
f. TXT x70198
f. TXT x70199
f. TXT x70200
f. TXT x70201
f. TXT x70202
f. TXT x70203
f. TXT x70204
f. TXT x70205
f. TXT x70206
f. TXT x70207
@ NS ya-c bxcx
f. TXT x70209
f. TXT x70210
f. TXT x70211
f. TXT x70212
f. TXT x70213
f. TXT x70214
f. TXT x70215
f. TXT x70216
f. TXT x70217
f. TXT x70218
f. TXT x70219
f. TXT x70220
f. TXT x70221
f. TXT x70222
f. TXT x70223
f. TXT x70224
f. TXT x70225
f. TXT x70226
f. TXT x70227
f. TXT x70228
f. TXT x70229
f. TXT x70230
f. TXT x70231
f. TXT x70232
f. TXT x70233
f. TXT x70234
f. TXT x70235
f. TXT x70236
f. TXT x70237
f. TXT x70238
f. TXT x70239
f. TXT x70240
f. TXT x70241
f. TXT x70242
f. TXT x70243
f. TXT x70244
f. TXT x70245
f. TXT x70246
f. TXT x70247
f. TXT x70248
f. TXT x70249
f. TXT x70250
f. TXT x70251
f. TXT x70252
f. TXT x70253
f. TXT x70254
f. TXT x70255
f. TXT x70256
f. TXT x70257
f. TXT x70258
f. TXT x70259
f. TXT x70260
f. TXT x70261
f. TXT x70262
f. TXT x70263
f. TXT x70264
f. TXT x70265
f. TXT x70266
f. TXT x70267
f. TXT x70268
f. TXT x70269
f. TXT x70270
f. TXT x70271
$ORIGIN 0-.
f. TXT x70273
f. TXT x70274
f. TXT x70275
f. TXT x70276
f. TXT x70277
f. TXT x70278
f. TXT x70279
f. TXT x70280
f. TXT x70281
f. TXT x70282
f. TXT x70283
f. TXT x70284
f. TXT x70285
f. TXT x70286
f. TXT x70287
f. TXT x70288
f. TXT x70289
f. TXT x70290
f. TXT x70291
f. TXT x70292
f. TXT x70293
f. TXT x70294
f. TXT x70295
f. TXT x70296
f. TXT x70297
f. TXT x70298
f. TXT x70299
f. TXT x70300
f. TXT x70301
f. TXT x70302
f. TXT x70303
f. TXT x70304
f. TXT x70305
f. TXT x70306
f. TXT x70307
f. TXT x70308
f. TXT x70309
f. TXT x70310
f. TXT x70311
f. TXT x70312
f. TXT x70313
f. TXT x70314
f. TXT x70315
f. TXT x70316
f. TXT x70317
f. TXT x70318
f. TXT x70319
f. TXT x70320
f. TXT x70321
f. TXT x70322
f. TXT x70323
f. TXT x70324
f. TXT x70325
f. TXT x70326
f. TXT x70327
f. TXT x70328
f. TXT x70329
f. TXT x70330
f. TXT x70331
f. TXT x70332
f. TXT x70333
f. TXT x70334
f. TXT x70335

f. TXT x70337
f. TXT x70338
f. TXT x70339
f. TXT x70340
f. TXT x70341
f. TXT x70342
f. TXT x70343
f. TXT x70344
f. TXT x70345
f. TXT x70346
f. TXT x70347
f. TXT x70348
f. TXT x70349
f. TXT x70350
f. TXT x70351
f. TXT x70352
f. TXT x70353
f. TXT x70354
f. TXT x70355
f. TXT x70356
f. TXT x70357
f. TXT x70358
f. TXT x70359
f. TXT x70360
f. TXT x70361
f. TXT x70362
f. TXT x70363
f. TXT x70364
f. TXT x70365
f. TXT x70366
f. TXT x70367
f. TXT x70368
f. TXT x70369
f. TXT x70370
f. TXT x70371
f. TXT x70372
f. TXT x70373
f. TXT x70374
f. TXT x70375
f. TXT x70376
f. TXT x70377
f. TXT x70378
f. TXT x70379
f. TXT x70380
f. TXT x70381
f. TXT x70382
f. TXT x70383
f. TXT x70384
f. TXT x70385
f. TXT x70386
f. TXT x70387
f. TXT x70388
f. TXT x70389
f. TXT x70390
f. TXT x70391
f. TXT x70392
f. TXT x70393
f. TXT x70394
f. TXT x70395
f. TXT x70396
f. TXT x70397
f. TXT x70398
f. TXT x70399
-.ayxb. A -
f. TXT x70401
f. TXT x70402
f. TXT x70403
f. TXT x70404
f. TXT x70405
f. TXT x70406
f. TXT x70407
f. TXT x70408
f. TXT x70409
f. TXT x70410
f. TXT x70411
f. TXT x70412
f. TXT x70413
f. TXT x70414
f. TXT x70415
f. TXT x70416
f. TXT x70417
f. TXT x70418
f. TXT x70419
f. TXT x70420
f. TXT x70421
f. TXT x70422
f. TXT x70423
f. TXT x70424
f. TXT x70425
f. TXT x70426
f. TXT x70427
f. TXT x70428
f. TXT x70429
f. TXT x70430
f. TXT x70431
f. TXT x70432
f. TXT x70433
f. TXT x70434
f. TXT x70435
f. TXT x70436
f. TXT x70437
f. TXT x70438
f. TXT x70439
f. TXT x70440
f. TXT x70441
f. TXT x70442
f. TXT x70443
f. TXT x70444
f. TXT x70445
f. TXT x70446
f. TXT x70447
f. TXT x70448
f. TXT x70449
f. TXT x70450
f. TXT x70451
f. TXT x70452
f. TXT x70453
f. TXT x70454
f. TXT x70455
f. TXT x70456
f. TXT x70457
f. TXT x70458
f. TXT x70459
f. TXT x70460
f. TXT x70461
f. TXT x70462
f. TXT x70463
$TTL 31
f. TXT x70465
f. TXT x70466
f. TXT x70467
f. TXT x70468
f. TXT x70469
f. TXT x70470
f. TXT x70471
f. TXT x70472
f. TXT x70473
f. TXT x70474
f. TXT x70475
f. TXT x70476
f. TXT x70477
f. TXT x70478
f. TXT x70479
f. TXT x70480
f. TXT x70481
f. TXT x70482
f. TXT x70483
f. TXT x70484
f. TXT x70485
f. TXT x70486
f. TXT x70487
f. TXT x70488
f. TXT x70489
f. TXT x70490
f. TXT x70491
f. TXT x70492
f. TXT x70493
f. TXT x70494
f. TXT x70495
f. TXT x70496
f. TXT x70497
f. TXT x70498
f. TXT x70499
f. TXT x70500
f. TXT x70501
f. TXT x70502
f. TXT x70503
f. TXT x70504
f. TXT x70505
f. TXT x70506
f. TXT x70507
f. TXT x70508
f. TXT x70509
f. TXT x70510
f. TXT x70511
f. TXT x70512
f. TXT x70513
f. TXT x70514
f. TXT x70515
f. TXT x70516
f. TXT x70517
f. TXT x70518
f. TXT x70519
f. TXT x70520
f. TXT x70521
f. TXT x70522
f. TXT x70523
f. TXT x70524
f. TXT x70525
f. TXT x70526
f. TXT x70527

f. TXT x70529
f. TXT x70530
f. TXT x70531
f. TXT x70532
f. TXT x70533
f. TXT x70534
f. TXT x70535
f. TXT x70536
f. TXT x70537
f. TXT x70538
f. TXT x70539
f. TXT x70540
f. TXT x70541
f. TXT x70542
f. TXT x70543
f. TXT x70544
f. TXT x70545
f. TXT x70546
f. TXT x70547
f. TXT x70548
f. TXT x70549
f. TXT x70550
f. TXT x70551
f. TXT x70552
f. TXT x70553
f. TXT x70554
f. TXT x70555
f. TXT x70556
f. TXT x70557
f. TXT x70558
f. TXT x70559
f. TXT x70560
f. TXT x70561
f. TXT x70562
f. TXT x70563
f. TXT x70564
f. TXT x70565
f. TXT x70566
f. TXT x70567
f. TXT x70568
f. TXT x70569
f. TXT x70570
f. TXT x70571
f. TXT x70572
f. TXT x70573
f. TXT x70574
f. TXT x70575
f. TXT x70576
f. TXT x70577
f. TXT x70578
f. TXT x70579
f. TXT x70580
f. TXT x70581
f. TXT x70582
f. TXT x70583
f. TXT x70584
f. TXT x70585
f. TXT x70586
f. TXT x70587
f. TXT x70588
f. TXT x70589
f. TXT x70590
f. TXT x70591
; aycb
f. TXT x70593
f. TXT x70594
f. TXT x70595
f. TXT x70596
f. TXT x70597
f. TXT x70598
f. TXT x70599
f. TXT x70600
f. TXT x70601
f. TXT x70602
f. TXT x70603
f. TXT x70604
f. TXT x70605
f. TXT x70606
f. TXT x70607
f. TXT x70608
f. TXT x70609
f. TXT x70610
f. TXT x70611
f. TXT x70612
f. TXT x70613
f. TXT x70614
f. TXT x70615
f. TXT x70616
f. TXT x70617
f. TXT x70618
f. TXT x70619
f. TXT x70620
f. TXT x70621
f. TXT x70622
f. TXT x70623
f. TXT x70624
f. TXT x70625
f. TXT x70626
f. TXT x70627
f. TXT x70628
f. TXT x70629
f. TXT x70630
f. TXT x70631
f. TXT x70632
f. TXT x70633
f. TXT x70634
f. TXT x70635
f. TXT x70636
f. TXT x70637
f. TXT x70638
f. TXT x70639
f. TXT x70640
f. TXT x70641
f. TXT x70642
f. TXT x70643
f. TXT x70644
f. TXT x70645
f. TXT x70646
f. TXT x70647
f. TXT x70648
f. TXT x70649
f. TXT x70650
f. TXT x70651
f. TXT x70652
f. TXT x70653
f. TXT x70654
f. TXT x70655
 A 0z0 0x azay
f. TXT x70657
f. TXT x70658
f. TXT x70659
f. TXT x70660
f. TXT x70661
f. TXT x70662
f. TXT x70663
f. TXT x70664
f. TXT x70665
f. TXT x70666
f. TXT x70667
f. TXT x70668
f. TXT x70669
f. TXT x70670
f. TXT x70671
f. TXT x70672
f. TXT x70673
f. TXT x70674
f. TXT x70675
f. TXT x70676
f. TXT x70677
f. TXT x70678
f. TXT x70679
f. TXT x70680
f. TXT x70681
f. TXT x70682
f. TXT x70683
f. TXT x70684
f. TXT x70685
f. TXT x70686
f. TXT x70687
f. TXT x70688
f. TXT x70689
f. TXT x70690
f. TXT x70691
f. TXT x70692
f. TXT x70693
f. TXT x70694
f. TXT x70695
f. TXT x70696
f. TXT x70697
f. TXT x70698
f. TXT x70699
f. TXT x70700
f. TXT x70701
f. TXT x70702
f. TXT x70703
f. TXT x70704
f. TXT x70705
f. TXT x70706
f. TXT x70707
f. TXT x70708
f. TXT x70709
f. TXT x70710
f. TXT x70711
f. TXT x70712
f. TXT x70713
f. TXT x70714
f. TXT x70715
f. TXT x70716
f. TXT x70717
f. TXT x70718
f. TXT x70719
0.y-aa. NS 0-ba
f. TXT x70721
f. TXT x70722
f. TXT x70723
f. TXT x70724
f. TXT x70725
f. TXT x70726
f. TXT x70727
f. TXT x70728
f. TXT x70729
f. TXT x70730
f. TXT x70731
f. TXT x70732
f. TXT x70733
f. TXT x70734
f. TXT x70735
f. TXT x70736
f. TXT x70737
f. TXT x70738
f. TXT x70739
f. TXT x70740
f. TXT x70741
f. TXT x70742
f. TXT x70743
f. TXT x70744
f. TXT x70745
f. TXT x70746
f. TXT x70747
f. TXT x70748
f. TXT x70749
f. TXT x70750
f. TXT x70751
f. TXT x70752
f. TXT x70753
f. TXT x70754
f. TXT x70755
f. TXT x70756
f. TXT x70757
f. TXT x70758
f. TXT x70759
f. TXT x70760
f. TXT x70761
f. TXT x70762
f. TXT x70763
f. TXT x70764
f. TXT x70765
f. TXT x70766
f. TXT x70767
f. TXT x70768
f. TXT x70769
f. TXT x70770
f. TXT x70771
f. TXT x70772
f. TXT x70773
f. TXT x70774
f. TXT x70775
f. TXT x70776
f. TXT x70777
f. TXT x70778
f. TXT x70779
f. TXT x70780
f. TXT x70781
f. TXT x70782
f. TXT x70783
$TTL 14117604
f. TXT x70785
f. TXT x70786
f. TXT x70787
f. TXT x70788
f. TXT x70789
f. TXT x70790
f. TXT x70791
f. TXT x70792
f. TXT x70793
f. TXT x70794
f. TXT x70795
f. TXT x70796
f. TXT x70797
f. TXT x70798
f. TXT x70799
f. TXT x70800
f. TXT x70801
f. TXT x70802
f. TXT x70803
f. TXT x70804
f. TXT x70805
f. TXT x70806
f. TXT x70807
f. TXT x70808
f. TXT x70809
f. TXT x70810
f. TXT x70811
f. TXT x70812
f. TXT x70813
f. TXT x70814
f. TXT x70815
f. TXT x70816
f. TXT x70817
f. TXT x70818
f. TXT x70819
f. TXT x70820
f. TXT x70821
f. TXT x70822
f. TXT x70823
f. TXT x70824
f. TXT x70825
f. TXT x70826
f. TXT x70827
f. TXT x70828
f. TXT x70829
f. TXT x70830
f. TXT x70831
f. TXT x70832
f. TXT x70833
f. TXT x70834
f. TXT x70835
f. TXT x70836
f. TXT x70837
f. TXT x70838
f. TXT x70839
f. TXT x70840
f. TXT x70841
f. TXT x70842
f. TXT x70843
f. TXT x70844
f. TXT x70845
f. TXT x70846
f. TXT x70847
$TTL 208
f. TXT x70849
f. TXT x70850
f. TXT x70851
f. TXT x70852
f. TXT x70853
f. TXT x70854
f. TXT x70855
f. TXT x70856
f. TXT x70857
f. TXT x70858
f. TXT x70859
f. TXT x70860
f. TXT x70861
f. TXT x70862
f. TXT x70863
f. TXT x70864
f. TXT x70865
f. TXT x70866
f. TXT x70867
f. TXT x70868
f. TXT x70869
f. TXT x70870
f. TXT x70871
f. TXT x70872
f. TXT x70873
f. TXT x70874
f. TXT x70875
f. TXT x70876
f. TXT x70877
f. TXT x70878
f. TXT x70879
f. TXT x70880
f. TXT x70881
f. TXT x70882
f. TXT x70883
f. TXT x70884
f. TXT x70885
f. TXT x70886
f. TXT x70887
f. TXT x70888
f. TXT x70889
f. TXT x70890
f. TXT x70891
f. TXT x70892
f. TXT x70893
f. TXT x70894
f. TXT x70895
f. TXT x70896
f. TXT x70897
f. TXT x70898
f. TXT x70899
f. TXT x70900
f. TXT x70901
f. TXT x70902
f. TXT x70903
f. TXT x70904
f. TXT x70905
f. TXT x70906
f. TXT x70907
f. TXT x70908
f. TXT x70909
f. TXT x70910
f. TXT x70911
ya-x.-z-b. NS cb*b y xb
f. TXT x70913
f. TXT x70914
f. TXT x70915
f. TXT x70916
f. TXT x70917
f. TXT x70918
f. TXT x70919
f. TXT x70920
f. TXT x70921
f. TXT x70922
f. TXT x70923
f. TXT x70924
f. TXT x70925
f. TXT x70926
f. TXT x70927
f. TXT x70928
f. TXT x70929
f. TXT x70930
f. TXT x70931
f. TXT x70932
f. TXT x70933
f. TXT x70934
f. TXT x70935
f. TXT x70936
f. TXT x70937
f. TXT x70938
f. TXT x70939
f. TXT x70940
f. TXT x70941
f. TXT x70942
f. TXT x70943
f. TXT x70944
f. TXT x70945
f. TXT x70946
f. TXT x70947
f. TXT x70948
f. TXT x70949
f. TXT x70950
f. TXT x70951
f. TXT x70952
f. TXT x70953
f. TXT x70954
f. TXT x70955
f. TXT x70956
f. TXT x70957
f. TXT x70958
f. TXT x70959
f. TXT x70960
f. TXT x70961
f. TXT x70962
f. TXT x70963
f. TXT x70964
f. TXT x70965
f. TXT x70966
f. TXT x70967
f. TXT x70968
f. TXT x70969
f. TXT x70970
f. TXT x70971
f. TXT x70972
f. TXT x70973
f. TXT x70974
f. TXT x70975
c A c yyxx
f. TXT x70977
f. TXT x70978
f. TXT x70979
f. TXT x70980
f. TXT x70981
f. TXT x70982
f. TXT x70983
f. TXT x70984
f. TXT x70985
f. TXT x70986
f. TXT x70987
f. TXT x70988
f. TXT x70989
f. TXT x70990
f. TXT x70991
f. TXT x70992
f. TXT x70993
f. TXT x70994
f. TXT x70995
f. TXT x70996
f. TXT x70997
f. TXT x70998
f. TXT x70999
f. TXT x71000
f. TXT x71001
f. TXT x71002
f. TXT x71003
f. TXT x71004
f. TXT x71005
f. TXT x71006
f. TXT x71007
f. TXT x71008
f. TXT x71009
f. TXT x71010
f. TXT x71011
f. TXT x71012
f. TXT x71013
f. TXT x71014
f. TXT x71015
f. TXT x71016
f. TXT x71017
f. TXT x71018
f. TXT x71019
f. TXT x71020
f. TXT x71021
f. TXT x71022
f. TXT x71023
f. TXT x71024
f. TXT x71025
f. TXT x71026
f. TXT x71027
f. TXT x71028
f. TXT x71029
f. TXT x71030
f. TXT x71031
f. TXT x71032
f. TXT x71033
f. TXT x71034
f. TXT x71035
f. TXT x71036
f. TXT x71037
f. TXT x71038
f. TXT x71039
$TTL 4294967295
f. TXT x71041
f. TXT x71042
f. TXT x71043
f. TXT x71044
f. TXT x71045
f. TXT x71046
f. TXT x71047
f. TXT x71048
f. TXT x71049
f. TXT x71050
f. TXT x71051
f. TXT x71052
f. TXT x71053
f. TXT x71054
f. TXT x71055
f. TXT x71056
f. TXT x71057
f. TXT x71058
f. TXT x71059
f. TXT x71060
f. TXT x71061
f. TXT x71062
f. TXT x71063
f. TXT x71064
f. TXT x71065
f. TXT x71066
f. TXT x71067
f. TXT x71068
f. TXT x71069
f. TXT x71070
f. TXT x71071
f. TXT x71072
f. TXT x71073
f. TXT x71074
f. TXT x71075
f. TXT x71076
f. TXT x71077
f. TXT x71078
f. TXT x71079
f. TXT x71080
f. TXT x71081
f. TXT x71082
f. TXT x71083
f. TXT x71084
f. TXT x71085
f. TXT x71086
f. TXT x71087
f. TXT x71088
f. TXT x71089
f. TXT x71090
f. TXT x71091
f. TXT x71092
f. TXT x71093
f. TXT x71094
f. TXT x71095
f. TXT x71096
f. TXT x71097
f. TXT x71098
f. TXT x71099
f. TXT x71100
f. TXT x71101
f. TXT x71102
f. TXT x71103
@ NS xz bx0 bz-a
f. TXT x71105
f. TXT x71106
f. TXT x71107
f. TXT x71108
f. TXT x71109
f. TXT x71110
f. TXT x71111
f. TXT x71112
f. TXT x71113
f. TXT x71114
f. TXT x71115
f. TXT x71116
f. TXT x71117
f. TXT x71118
f. TXT x71119
f. TXT x71120
f. TXT x71121
f. TXT x71122
f. TXT x71123
f. TXT x71124
f. TXT x71125
f. TXT x71126
f. TXT x71127
f. TXT x71128
f. TXT x71129
f. TXT x71130
f. TXT x71131
f. TXT x71132
f. TXT x71133
f. TXT x71134
f. TXT x71135
f. TXT x71136
f. TXT x71137
f. TXT x71138
f. TXT x71139
f. TXT x71140
f. TXT x71141
f. TXT x71142
f. TXT x71143
f. TXT x71144
f. TXT x71145
f. TXT x71146
f. TXT x71147
f. TXT x71148
f. TXT x71149
f. TXT x71150
f. TXT x71151
f. TXT x71152
f. TXT x71153
f. TXT x71154
f. TXT x71155
f. TXT x71156
f. TXT x71157
f. TXT x71158
f. TXT x71159
f. TXT x71160
f. TXT x71161
f. TXT x71162
f. TXT x71163
f. TXT x71164
f. TXT x71165
f. TXT x71166
f. TXT x71167
@ TXT yxzb *c
f. TXT x71169
f. TXT x71170
f. TXT x71171
f. TXT x71172
f. TXT x71173
f. TXT x71174
f. TXT x71175
f. TXT x71176
f. TXT x71177
f. TXT x71178
f. TXT x71179
f. TXT x71180
f. TXT x71181
f. TXT x71182
f. TXT x71183
f. TXT x71184
f. TXT x71185
f. TXT x71186
f. TXT x71187
f. TXT x71188
f. TXT x71189
f. TXT x71190
f. TXT x71191
f. TXT x71192
f. TXT x71193
f. TXT x71194
f. TXT x71195
f. TXT x71196
f. TXT x71197
f. TXT x71198
f. TXT x71199
f. TXT x71200
f. TXT x71201
f. TXT x71202
f. TXT x71203
f. TXT x71204
f. TXT x71205
f. TXT x71206
f. TXT x71207
f. TXT x71208
f. TXT x71209
f. TXT x71210
f. TXT x71211
f. TXT x71212
f. TXT x71213
f. TXT x71214
f. TXT x71215
f. TXT x71216
f. TXT x71217
f. TXT x71218
f. TXT x71219
f. TXT x71220
f. TXT x71221
f. TXT x71222
f. TXT x71223
f. TXT x71224
f. TXT x71225
f. TXT x71226
f. TXT x71227
f. TXT x71228
f. TXT x71229
f. TXT x71230
f. TXT x71231
 TXT 0ycb
f. TXT x71233
f. TXT x71234
f. TXT x71235
f. TXT x71236
f. TXT x71237
f. TXT x71238
f. TXT x71239
f. TXT x71240
f. TXT x71241
f. TXT x71242
f. TXT x71243
f. TXT x71244
f. TXT x71245
f. TXT x71246
f. TXT x71247
f. TXT x71248
f. TXT x71249
f. TXT x71250
f. TXT x71251
f. TXT x71252
f. TXT x71253
f. TXT x71254
f. TXT x71255
f. TXT x71256
f. TXT x71257
f. TXT x71258
f. TXT x71259
f. TXT x71260
f. TXT x71261
f. TXT x71262
f. TXT x71263
f. TXT x71264
f. TXT x71265
f. TXT x71266
f. TXT x71267
f. TXT x71268
f. TXT x71269
f. TXT x71270
f. TXT x71271
f. TXT x71272
f. TXT x71273
f. TXT x71274
f. TXT x71275
f. TXT x71276
f. TXT x71277
f. TXT x71278
f. TXT x71279
f. TXT x71280
f. TXT x71281
f. TXT x71282
f. TXT x71283
f. TXT x71284
f. TXT x71285
f. TXT x71286
f. TXT x71287
f. TXT x71288
f. TXT x71289
f. TXT x71290
f. TXT x71291
f. TXT x71292
f. TXT x71293
f. TXT x71294
f. TXT x71295
; 0a
f. TXT x71297
f. TXT x71298
f. TXT x71299
f. TXT x71300
f. TXT x71301
f. TXT x71302
f. TXT x71303
f. TXT x71304
f. TXT x71305
f. TXT x71306
f. TXT x71307
f. TXT x71308
f. TXT x71309
f. TXT x71310
f. TXT x71311
f. TXT x71312
f. TXT x71313
f. TXT x71314
f. TXT x71315
f. TXT x71316
f. TXT x71317
f. TXT x71318
f. TXT x71319
f. TXT x71320
f. TXT x71321
f. TXT x71322
f. TXT x71323
f. TXT x71324
f. TXT x71325
f. TXT x71326
f. TXT x71327
f. TXT x71328
f. TXT x71329
f. TXT x71330
f. TXT x71331
f. TXT x71332
f. TXT x71333
f. TXT x71334
f. TXT x71335
f. TXT x71336
f. TXT x71337
f. TXT x71338
f. TXT x71339
f. TXT x71340
f. TXT x71341
f. TXT x71342
f. TXT x71343
f. TXT x71344
f. TXT x71345
f. TXT x71346
f. TXT x71347
f. TXT x71348
f. TXT x71349
f. TXT x71350
f. TXT x71351
f. TXT x71352
f. TXT x71353
f. TXT x71354
f. TXT x71355
f. TXT x71356
f. TXT x71357
f. TXT x71358
f. TXT x71359
0. TXT *-
f. TXT x71361
f. TXT x71362
f. TXT x71363
f. TXT x71364
f. TXT x71365
f. TXT x71366
f. TXT x71367
f. TXT x71368
f. TXT x71369
f. TXT x71370
f. TXT x71371
f. TXT x71372
f. TXT x71373
f. TXT x71374
f. TXT x71375
f. TXT x71376
f. TXT x71377
f. TXT x71378
f. TXT x71379
f. TXT x71380
f. TXT x71381
f. TXT x71382
f. TXT x71383
f. TXT x71384
f. TXT x71385
f. TXT x71386
f. TXT x71387
f. TXT x71388
f. TXT x71389
f. TXT x71390
f. TXT x71391
f. TXT x71392
f. TXT x71393
f. TXT x71394
f. TXT x71395
f. TXT x71396
f. TXT x71397
f. TXT x71398
f. TXT x71399
f. TXT x71400
f. TXT x71401
f. TXT x71402
f. TXT x71403
f. TXT x71404
f. TXT x71405
f. TXT x71406
f. TXT x71407
f. TXT x71408
f. TXT x71409
f. TXT x71410
f. TXT x71411
f. TXT x71412
f. TXT x71413
f. TXT x71414
f. TXT x71415
f. TXT x71416
f. TXT x71417
f. TXT x71418
f. TXT x71419
f. TXT x71420
f. TXT x71421
f. TXT x71422
f. TXT x71423
 A x ***
f. TXT x71425
f. TXT x71426
f. TXT x71427
f. TXT x71428
f. TXT x71429
f. TXT x71430
f. TXT x71431
f. TXT x71432
f. TXT x71433
f. TXT x71434
f. TXT x71435
f. TXT x71436
f. TXT x71437
f. TXT x71438
f. TXT x71439
f. TXT x71440
f. TXT x71441
f. TXT x71442
f. TXT x71443
f. TXT x71444
f. TXT x71445
f. TXT x71446
f. TXT x71447
f. TXT x71448
f. TXT x71449
f. TXT x71450
f. TXT x71451
f. TXT x71452
f. TXT x71453
f. TXT x71454
f. TXT x71455
f. TXT x71456
f. TXT x71457
f. TXT x71458
f. TXT x71459
f. TXT x71460
f. TXT x71461
f. TXT x71462
f. TXT x71463
f. TXT x71464
f. TXT x71465
f. TXT x71466
f. TXT x71467
f. TXT x71468
f. TXT x71469
f. TXT x71470
f. TXT x71471
f. TXT x71472
f. TXT x71473
f. TXT x71474
f. TXT x71475
f. TXT x71476
f. TXT x71477
f. TXT x71478
f. TXT x71479
f. TXT x71480
f. TXT x71481
f. TXT x71482
f. TXT x71483
f. TXT x71484
f. TXT x71485
f. TXT x71486
f. TXT x71487
 NS *c a0b
f. TXT x71489
f. TXT x71490
f. TXT x71491
f. TXT x71492
f. TXT x71493
f. TXT x71494
f. TXT x71495
f. TXT x71496
f. TXT x71497
f. TXT x71498
f. TXT x71499
f. TXT x71500
f. TXT x71501
f. TXT x71502
f. TXT x71503
f. TXT x71504
f. TXT x71505
f. TXT x71506
f. TXT x71507
f. TXT x71508
f. TXT x71509
f. TXT x71510
f. TXT x71511
f. TXT x71512
f. TXT x71513
f. TXT x71514
f. TXT x71515
f. TXT x71516
f. TXT x71517
f. TXT x71518
f. TXT x71519
f. TXT x71520
f. TXT x71521
f. TXT x71522
f. TXT x71523
f. TXT x71524
f. TXT x71525
f. TXT x71526
f. TXT x71527
f. TXT x71528
f. TXT x71529
f. TXT x71530
f. TXT x71531
f. TXT x71532
f. TXT x71533
f. TXT x71534
f. TXT x71535
f. TXT x71536
f. TXT x71537
f. TXT x71538
f. TXT x71539
f. TXT x71540
f. TXT x71541
f. TXT x71542
f. TXT x71543
f. TXT x71544
f. TXT x71545
f. TXT x71546
f. TXT x71547
f. TXT x71548
f. TXT x71549
f. TXT x71550
f. TXT x71551
 NS a*ca *b a0c
f. TXT x71553
f. TXT x71554
f. TXT x71555
f. TXT x71556
f. TXT x71557
f. TXT x71558
f. TXT x71559
f. TXT x71560
f. TXT x71561
f. TXT x71562
f. TXT x71563
f. TXT x71564
f. TXT x71565
f. TXT x71566
f. TXT x71567
f. TXT x71568
f. TXT x71569
f. TXT x71570
f. TXT x71571
f. TXT x71572
f. TXT x71573
f. TXT x71574
f. TXT x71575
f. TXT x71576
f. TXT x71577
f. TXT x71578
f. TXT x71579
f. TXT x71580
f. TXT x71581
f. TXT x71582
f. TXT x71583
f. TXT x71584
f. TXT x71585
f. TXT x71586
f. TXT x71587
f. TXT x71588
f. TXT x71589
f. TXT x71590
f. TXT x71591
f. TXT x71592
f. TXT x71593
f. TXT x71594
f. TXT x71595
f. TXT x71596
f. TXT x71597
f. TXT x71598
f. TXT x71599
f. TXT x71600
f. TXT x71601
f. TXT x71602
f. TXT x71603
f. TXT x71604
f. TXT x71605
f. TXT x71606
f. TXT x71607
f. TXT x71608
f. TXT x71609
f. TXT x71610
f. TXT x71611
f. TXT x71612
f. TXT x71613
f. TXT x71614
f. TXT x71615
@ TXT *ba axc
f. TXT x71617
f. TXT x71618
f. TXT x71619
f. TXT x71620
f. TXT x71621
f. TXT x71622
f. TXT x71623
f. TXT x71624
f. TXT x71625
f. TXT x71626
f. TXT x71627
f. TXT x71628
f. TXT x71629
f. TXT x71630
f. TXT x71631
f. TXT x71632
f. TXT x71633
f. TXT x71634
f. TXT x71635
f. TXT x71636
f. TXT x71637
f. TXT x71638
f. TXT x71639
f. TXT x71640
f. TXT x71641
f. TXT x71642
f. TXT x71643
f. TXT x71644
f. TXT x71645
f. TXT x71646
f. TXT x71647
f. TXT x71648
f. TXT x71649
f. TXT x71650
f. TXT x71651
f. TXT x71652
f. TXT x71653
f. TXT x71654
f. TXT x71655
f. TXT x71656
f. TXT x71657
f. TXT x71658
f. TXT x71659
f. TXT x71660
f. TXT x71661
f. TXT x71662
f. TXT x71663
f. TXT x71664
f. TXT x71665
f. TXT x71666
f. TXT x71667
f. TXT x71668
f. TXT x71669
f. TXT x71670
f. TXT x71671
f. TXT x71672
f. TXT x71673
f. TXT x71674
f. TXT x71675
f. TXT x71676
f. TXT x71677
f. TXT x71678
f. TXT x71679
zy.b*. A -y y-c a--
f. TXT x71681
f. TXT x71682
f. TXT x71683
f. TXT x71684
f. TXT x71685
f. TXT x71686
f. TXT x71687
f. TXT x71688
f. TXT x71689
f. TXT x71690
f. TXT x71691
f. TXT x71692
f. TXT x71693
f. TXT x71694
f. TXT x71695
f. TXT x71696
f. TXT x71697
f. TXT x71698
f. TXT x71699
f. TXT x71700
f. TXT x71701
f. TXT x71702
f. TXT x71703
f. TXT x71704
f. TXT x71705
f. TXT x71706
f. TXT x71707
f. TXT x71708
f. TXT x71709
f. TXT x71710
f. TXT x71711
f. TXT x71712
f. TXT x71713
f. TXT x71714
f. TXT x71715
f. TXT x71716
f. TXT x71717
f. TXT x71718
f. TXT x71719
f. TXT x71720
f. TXT x71721
f. TXT x71722
f. TXT x71723
f. TXT x71724
f. TXT x71725
f. TXT x71726
f. TXT x71727
f. TXT x71728
f. TXT x71729
f. TXT x71730
f. TXT x71731
f. TXT x71732
f. TXT x71733
f. TXT x71734
f. TXT x71735
f. TXT x71736
f. TXT x71737
f. TXT x71738
f. TXT x71739
f. TXT x71740
f. TXT x71741
f. TXT x71742
f. TXT x71743
; b
f. TXT x71745
f. TXT x71746
f. TXT x71747
f. TXT x71748
f. TXT x71749
f. TXT x71750
f. TXT x71751
f. TXT x71752
f. TXT x71753
f. TXT x71754
f. TXT x71755
f. TXT x71756
f. TXT x71757
f. TXT x71758
f. TXT x71759
f. TXT x71760
f. TXT x71761
f. TXT x71762
f. TXT x71763
f. TXT x71764
f. TXT x71765
f. TXT x71766
f. TXT x71767
f. TXT x71768
f. TXT x71769
f. TXT x71770
f. TXT x71771
f. TXT x71772
f. TXT x71773
f. TXT x71774
f. TXT x71775
f. TXT x71776
f. TXT x71777
f. TXT x71778
f. TXT x71779
f. TXT x71780
f. TXT x71781
f. TXT x71782
f. TXT x71783
f. TXT x71784
f. TXT x71785
f. TXT x71786
f. TXT x71787
f. TXT x71788
f. TXT x71789
f. TXT x71790
f. TXT x71791
f. TXT x71792
f. TXT x71793
f. TXT x71794
f. TXT x71795
f. TXT x71796
f. TXT x71797
f. TXT x71798
f. TXT x71799
f. TXT x71800
f. TXT x71801
f. TXT x71802
f. TXT x71803
f. TXT x71804
f. TXT x71805
f. TXT x71806
f. TXT x71807
yz NS xzza
f. TXT x71809
f. TXT x71810
f. TXT x71811
f. TXT x71812
f. TXT x71813
f. TXT x71814
f. TXT x71815
f. TXT x71816
f. TXT x71817
f. TXT x71818
f. TXT x71819
f. TXT x71820
f. TXT x71821
f. TXT x71822
f. TXT x71823
f. TXT x71824
f. TXT x71825
f. TXT x71826
f. TXT x71827
f. TXT x71828
f. TXT x71829
f. TXT x71830
f. TXT x71831
f. TXT x71832
f. TXT x71833
f. TXT x71834
f. TXT x71835
f. TXT x71836
f. TXT x71837
f. TXT x71838
f. TXT x71839
f. TXT x71840
f. TXT x71841
f. TXT x71842
f. TXT x71843
f. TXT x71844
f. TXT x71845
f. TXT x71846
f. TXT x71847
f. TXT x71848
f. TXT x71849
f. TXT x71850
f. TXT x71851
f. TXT x71852
f. TXT x71853
f. TXT x71854
f. TXT x71855
f. TXT x71856
f. TXT x71857
f. TXT x71858
f. TXT x71859
f. TXT x71860
f. TXT x71861
f. TXT x71862
f. TXT x71863
f. TXT x71864
f. TXT x71865
f. TXT x71866
f. TXT x71867
f. TXT x71868
f. TXT x71869
f. TXT x71870
f. TXT x71871
 A ax x*0 z
f. TXT x71873
f. TXT x71874
f. TXT x71875
f. TXT x71876
f. TXT x71877
f. TXT x71878
f. TXT x71879
f. TXT x71880
f. TXT x71881
f. TXT x71882
f. TXT x71883
f. TXT x71884
f. TXT x71885
f. TXT x71886
f. TXT x71887
f. TXT x71888
f. TXT x71889
f. TXT x71890
f. TXT x71891
f. TXT x71892
f. TXT x71893
f. TXT x71894
f. TXT x71895
f. TXT x71896
f. TXT x71897
f. TXT x71898
f. TXT x71899
f. TXT x71900
f. TXT x71901
f. TXT x71902
f. TXT x71903
f. TXT x71904
f. TXT x71905
f. TXT x71906
f. TXT x71907
f. TXT x71908
f. TXT x71909
f. TXT x71910
f. TXT x71911
f. TXT x71912
f. TXT x71913
f. TXT x71914
f. TXT x71915
f. TXT x71916
f. TXT x71917
f. TXT x71918
f. TXT x71919
f. TXT x71920
f. TXT x71921
f. TXT x71922
f. TXT x71923
f. TXT x71924
f. TXT x71925
f. TXT x71926
f. TXT x71927
f. TXT x71928
f. TXT x71929
f. TXT x71930
f. TXT x71931
f. TXT x71932
f. TXT x71933
f. TXT x71934
f. TXT x71935
; 0*-
f. TXT x71937
f. TXT x71938
f. TXT x71939
f. TXT x71940
f. TXT x71941
f. TXT x71942
f. TXT x71943
f. TXT x71944
f. TXT x71945
f. TXT x71946
f. TXT x71947
f. TXT x71948
f. TXT x71949
f. TXT x71950
f. TXT x71951
f. TXT x71952
f. TXT x71953
f. TXT x71954
f. TXT x71955
f. TXT x71956
f. TXT x71957
f. TXT x71958
f. TXT x71959
f. TXT x71960
f. TXT x71961
f. TXT x71962
f. TXT x71963
f. TXT x71964
f. TXT x71965
f. TXT x71966
f. TXT x71967
f. TXT x71968
f. TXT x71969
f. TXT x71970
f. TXT x71971
f. TXT x71972
f. TXT x71973
f. TXT x71974
f. TXT x71975
f. TXT x71976
f. TXT x71977
f. TXT x71978
f. TXT x71979
f. TXT x71980
f. TXT x71981
f. TXT x71982
f. TXT x71983
f. TXT x71984
f. TXT x71985
f. TXT x71986
f. TXT x71987
f. TXT x71988
f. TXT x71989
f. TXT x71990
f. TXT x71991
f. TXT x71992
f. TXT x71993
f. TXT x71994
f. TXT x71995
f. TXT x71996
f. TXT x71997
f. TXT x71998
f. TXT x71999
zcz TXT zx0- b
f. TXT x72001
f. TXT x72002
f. TXT x72003
f. TXT x72004
f. TXT x72005
f. TXT x72006
f. TXT x72007
f. TXT x72008
f. TXT x72009
f. TXT x72010
f. TXT x72011
f. TXT x72012
f. TXT x72013
f. TXT x72014
f. TXT x72015
f. TXT x72016
f. TXT x72017
f. TXT x72018
f. TXT x72019
f. TXT x72020
f. TXT x72021
f. TXT x72022
f. TXT x72023
f. TXT x72024
f. TXT x72025
f. TXT x72026
f. TXT x72027
f. TXT x72028
f. TXT x72029
f. TXT x72030
f. TXT x72031
f. TXT x72032
f. TXT x72033
f. TXT x72034
f. TXT x72035
f. TXT x72036
f. TXT x72037
f. TXT x72038
f. TXT x72039
f. TXT x72040
f. TXT x72041
f. TXT x72042
f. TXT x72043
f. TXT x72044
f. TXT x72045
f. TXT x72046
f. TXT x72047
f. TXT x72048
f. TXT x72049
f. TXT x72050
f. TXT x72051
f. TXT x72052
f. TXT x72053
f. TXT x72054
f. TXT x72055
f. TXT x72056
f. TXT x72057
f. TXT x72058
f. TXT x72059
f. TXT x72060
f. TXT x72061
f. TXT x72062
f. TXT x72063
@ A za*x yxay
f. TXT x72065
f. TXT x72066
f. TXT x72067
f. TXT x72068
f. TXT x72069
f. TXT x72070
f. TXT x72071
f. TXT x72072
f. TXT x72073
f. TXT x72074
f. TXT x72075
f. TXT x72076
f. TXT x72077
f. TXT x72078
f. TXT x72079
f. TXT x72080
f. TXT x72081
f. TXT x72082
f. TXT x72083
f. TXT x72084
f. TXT x72085
f. TXT x72086
f. TXT x72087
f. TXT x72088
f. TXT x72089
f. TXT x72090
f. TXT x72091
f. TXT x72092
f. TXT x72093
f. TXT x72094
f. TXT x72095
f. TXT x72096
f. TXT x72097
f. TXT x72098
f. TXT x72099
f. TXT x72100
f. TXT x72101
f. TXT x72102
f. TXT x72103
f. TXT x72104
f. TXT x72105
f. TXT x72106
f. TXT x72107
f. TXT x72108
f. TXT x72109
f. TXT x72110
f. TXT x72111
f. TXT x72112
f. TXT x72113
f. TXT x72114
f. TXT x72115
f. TXT x72116
f. TXT x72117
f. TXT x72118
f. TXT x72119
f. TXT x72120
f. TXT x72121
f. TXT x72122
f. TXT x72123
f. TXT x72124
f. TXT x72125
f. TXT x72126
f. TXT x72127
$ORIGIN *.
f. TXT x72129
f. TXT x72130
f. TXT x72131
f. TXT x72132
f. TXT x72133
f. TXT x72134
f. TXT x72135
f. TXT x72136
f. TXT x72137
f. TXT x72138
f. TXT x72139
f. TXT x72140
f. TXT x72141
f. TXT x72142
f. TXT x72143
f. TXT x72144
f. TXT x72145
f. TXT x72146
f. TXT x72147
f. TXT x72148
f. TXT x72149
f. TXT x72150
f. TXT x72151
f. TXT x72152
f. TXT x72153
f. TXT x72154
f. TXT x72155
f. TXT x72156
f. TXT x72157
f. TXT x72158
f. TXT x72159
f. TXT x72160
f. TXT x72161
f. TXT x72162
f. TXT x72163
f. TXT x72164
f. TXT x72165
f. TXT x72166
f. TXT x72167
f. TXT x72168
f. TXT x72169
f. TXT x72170
f. TXT x72171
f. TXT x72172
f. TXT x72173
f. TXT x72174
f. TXT x72175
f. TXT x72176
f. TXT x72177
f. TXT x72178
f. TXT x72179
f. TXT x72180
f. TXT x72181
f. TXT x72182
f. TXT x72183
f. TXT x72184
f. TXT x72185
f. TXT x72186
f. TXT x72187
f. TXT x72188
f. TXT x72189
f. TXT x72190
f. TXT x72191
@ NS zx
f. TXT x72193
f. TXT x72194
f. TXT x72195
f. TXT x72196
f. TXT x72197
f. TXT x72198
f. TXT x72199
f. TXT x72200
f. TXT x72201
f. TXT x72202
f. TXT x72203
f. TXT x72204
f. TXT x72205
f. TXT x72206
f. TXT x72207
f. TXT x72208
f. TXT x72209
f. TXT x72210
f. TXT x72211
f. TXT x72212
f. TXT x72213
f. TXT x72214
f. TXT x72215
f. TXT x72216
f. TXT x72217
f. TXT x72218
f. TXT x72219
f. TXT x72220
f. TXT x72221
f. TXT x72222
f. TXT x72223
f. TXT x72224
f. TXT x72225
f. TXT x72226
f. TXT x72227
f. TXT x72228
f. TXT x72229
f. TXT x72230
f. TXT x72231
f. TXT x72232
f. TXT x72233
f. TXT x72234
f. TXT x72235
f. TXT x72236
f. TXT x72237
f. TXT x72238
f. TXT x72239
f. TXT x72240
f. TXT x72241
f. TXT x72242
f. TXT x72243
f. TXT x72244
f. TXT x72245
f. TXT x72246
f. TXT x72247
f. TXT x72248
f. TXT x72249
f. TXT x72250
f. TXT x72251
f. TXT x72252
f. TXT x72253
f. TXT x72254
f. TXT x72255
@ TXT yca* zz0 ay*
f. TXT x72257
f. TXT x72258
f. TXT x72259
f. TXT x72260
f. TXT x72261
f. TXT x72262
f. TXT x72263
f. TXT x72264
f. TXT x72265
f. TXT x72266
f. TXT x72267
f. TXT x72268
f. TXT x72269
f. TXT x72270
f. TXT x72271
f. TXT x72272
f. TXT x72273
f. TXT x72274
f. TXT x72275
f. TXT x72276
f. TXT x72277
f. TXT x72278
f. TXT x72279
f. TXT x72280
f. TXT x72281
f. TXT x72282
f. TXT x72283
f. TXT x72284
f. TXT x72285
f. TXT x72286
f. TXT x72287
f. TXT x72288
f. TXT x72289
f. TXT x72290
f. TXT x72291
f. TXT x72292
f. TXT x72293
f. TXT x72294
f. TXT x72295
f. TXT x72296
f. TXT x72297
f. TXT x72298
f. TXT x72299
f. TXT x72300
f. TXT x72301
f. TXT x72302
f. TXT x72303
f. TXT x72304
f. TXT x72305
f. TXT x72306
f. TXT x72307
f. TXT x72308
f. TXT x72309
f. TXT x72310
f. TXT x72311
f. TXT x72312
f. TXT x72313
f. TXT x72314
f. TXT x72315
f. TXT x72316
f. TXT x72317
f. TXT x72318
f. TXT x72319
; c
f. TXT x72321
f. TXT x72322
f. TXT x72323
f. TXT x72324
f. TXT x72325
f. TXT x72326
f. TXT x72327
f. TXT x72328
f. TXT x72329
f. TXT x72330
f. TXT x72331
f. TXT x72332
f. TXT x72333
f. TXT x72334
f. TXT x72335
f. TXT x72336
f. TXT x72337
f. TXT x72338
f. TXT x72339
f. TXT x72340
f. TXT x72341
f. TXT x72342
f. TXT x72343
f. TXT x72344
f. TXT x72345
f. TXT x72346
f. TXT x72347
f. TXT x72348
f. TXT x72349
f. TXT x72350
f. TXT x72351
f. TXT x72352
f. TXT x72353
f. TXT x72354
f. TXT x72355
f. TXT x72356
f. TXT x72357
f. TXT x72358
f. TXT x72359
f. TXT x72360
f. TXT x72361
f. TXT x72362
f. TXT x72363
f. TXT x72364
f. TXT x72365
f. TXT x72366
f. TXT x72367
f. TXT x72368
f. TXT x72369
f. TXT x72370
f. TXT x72371
f. TXT x72372
f. TXT x72373
f. TXT x72374
f. TXT x72375
f. TXT x72376
f. TXT x72377
f. TXT x72378
f. TXT x72379
f. TXT x72380
f. TXT x72381
f. TXT x72382
f. TXT x72383
$ORIGIN y0.y.
f. TXT x72385
f. TXT x72386
f. TXT x72387
f. TXT x72388
f. TXT x72389
f. TXT x72390
f. TXT x72391
f. TXT x72392
f. TXT x72393
f. TXT x72394
f. TXT x72395
f. TXT x72396
f. TXT x72397
f. TXT x72398
f. TXT x72399
f. TXT x72400
f. TXT x72401
f. TXT x72402
f. TXT x72403
f. TXT x72404
f. TXT x72405
f. TXT x72406
f. TXT x72407
f. TXT x72408
f. TXT x72409
f. TXT x72410
f. TXT x72411
f. TXT x72412
f. TXT x72413
f. TXT x72414
f. TXT x72415
f. TXT x72416
f. TXT x72417
f. TXT x72418
f. TXT x72419
f. TXT x72420
f. TXT x72421
f. TXT x72422
f. TXT x72423
f. TXT x72424
f. TXT x72425
f. TXT x72426
f. TXT x72427
f. TXT x72428
f. TXT x72429
f. TXT x72430
f. TXT x72431
f. TXT x72432
f. TXT x72433
f. TXT x72434
f. TXT x72435
f. TXT x72436
f. TXT x72437
f. TXT x72438
f. TXT x72439
f. TXT x72440
f. TXT x72441
f. TXT x72442
f. TXT x72443
f. TXT x72444
f. TXT x72445
f. TXT x72446
f. TXT x72447
 A cxb b
f. TXT x72449
f. TXT x72450
f. TXT x72451
f. TXT x72452
f. TXT x72453
f. TXT x72454
f. TXT x72455
f. TXT x72456
f. TXT x72457
f. TXT x72458
f. TXT x72459
f. TXT x72460
f. TXT x72461
f. TXT x72462
f. TXT x72463
f. TXT x72464
f. TXT x72465
f. TXT x72466
f. TXT x72467
f. TXT x72468
f. TXT x72469
f. TXT x72470
f. TXT x72471
f. TXT x72472
f. TXT x72473
f. TXT x72474
f. TXT x72475
f. TXT x72476
f. TXT x72477
f. TXT x72478
f. TXT x72479
f. TXT x72480
f. TXT x72481
f. TXT x72482
f. TXT x72483
f. TXT x72484
f. TXT x72485
f. TXT x72486
f. TXT x72487
f. TXT x72488
f. TXT x72489
f. TXT x72490
f. TXT x72491
f. TXT x72492
f. TXT x72493
f. TXT x72494
f. TXT x72495
f. TXT x72496
f. TXT x72497
f. TXT x72498
f. TXT x72499
f. TXT x72500
f. TXT x72501
f. TXT x72502
f. TXT x72503
f. TXT x72504
f. TXT x72505
f. TXT x72506
f. TXT x72507
f. TXT x72508
f. TXT x72509
f. TXT x72510
f. TXT x72511
@ TXT *x- b
f. TXT x72513
f. TXT x72514
f. TXT x72515
f. TXT x72516
f. TXT x72517
f. TXT x72518
f. TXT x72519
f. TXT x72520
f. TXT x72521
f. TXT x72522
f. TXT x72523
f. TXT x72524
f. TXT x72525
f. TXT x72526
f. TXT x72527
f. TXT x72528
f. TXT x72529
f. TXT x72530
f. TXT x72531
f. TXT x72532
f. TXT x72533
f. TXT x72534
f. TXT x72535
f. TXT x72536
f. TXT x72537
f. TXT x72538
f. TXT x72539
f. TXT x72540
f. TXT x72541
f. TXT x72542
f. TXT x72543
f. TXT x72544
f. TXT x72545
f. TXT x72546
f. TXT x72547
f. TXT x72548
f. TXT x72549
f. TXT x72550
f. TXT x72551
f. TXT x72552
f. TXT x72553
f. TXT x72554
f. TXT x72555
f. TXT x72556
f. TXT x72557
f. TXT x72558
f. TXT x72559
f. TXT x72560
f. TXT x72561
f. TXT x72562
f. TXT x72563
f. TXT x72564
f. TXT x72565
f. TXT x72566
f. TXT x72567
f. TXT x72568
f. TXT x72569
f. TXT x72570
f. TXT x72571
f. TXT x72572
f. TXT x72573
f. TXT x72574
f. TXT x72575
@ TXT - *z-
f. TXT x72577
f. TXT x72578
f. TXT x72579
f. TXT x72580
f. TXT x72581
f. TXT x72582
f. TXT x72583
f. TXT x72584
f. TXT x72585
f. TXT x72586
f. TXT x72587
f. TXT x72588
f. TXT x72589
f. TXT x72590
f. TXT x72591
f. TXT x72592
f. TXT x72593
f. TXT x72594
f. TXT x72595
f. TXT x72596
f. TXT x72597
f. TXT x72598
f. TXT x72599
f. TXT x72600
f. TXT x72601
f. TXT x72602
f. TXT x72603
f. TXT x72604
f. TXT x72605
f. TXT x72606
f. TXT x72607
f. TXT x72608
f. TXT x72609
f. TXT x72610
f. TXT x72611
f. TXT x72612
f. TXT x72613
f. TXT x72614
f. TXT x72615
f. TXT x72616
f. TXT x72617
f. TXT x72618
f. TXT x72619
f. TXT x72620
f. TXT x72621
f. TXT x72622
f. TXT x72623
f. TXT x72624
f. TXT x72625
f. TXT x72626
f. TXT x72627
f. TXT x72628
f. TXT x72629
f. TXT x72630
f. TXT x72631
f. TXT x72632
f. TXT x72633
f. TXT x72634
f. TXT x72635
f. TXT x72636
f. TXT x72637
f. TXT x72638
f. TXT x72639
x.0ay. A y
f. TXT x72641
f. TXT x72642
f. TXT x72643
f. TXT x72644
f. TXT x72645
f. TXT x72646
f. TXT x72647
f. TXT x72648
f. TXT x72649
f. TXT x72650
f. TXT x72651
f. TXT x72652
f. TXT x72653
f. TXT x72654
f. TXT x72655
f. TXT x72656
f. TXT x72657
f. TXT x72658
f. TXT x72659
f. TXT x72660
f. TXT x72661
f. TXT x72662
f. TXT x72663
f. TXT x72664
f. TXT x72665
f. TXT x72666
f. TXT x72667
f. TXT x72668
f. TXT x72669
f. TXT x72670
f. TXT x72671
f. TXT x72672
f. TXT x72673
f. TXT x72674
f. TXT x72675
f. TXT x72676
f. TXT x72677
f. TXT x72678
f. TXT x72679
f. TXT x72680
f. TXT x72681
f. TXT x72682
f. TXT x72683
f. TXT x72684
f. TXT x72685
f. TXT x72686
f. TXT x72687
f. TXT x72688
f. TXT x72689
f. TXT x72690
f. TXT x72691
f. TXT x72692
f. TXT x72693
f. TXT x72694
f. TXT x72695
f. TXT x72696
f. TXT x72697
f. TXT x72698
f. TXT x72699
f. TXT x72700
f. TXT x72701
f. TXT x72702
f. TXT x72703
$ORIGIN *a.
f. TXT x72705
f. TXT x72706
f. TXT x72707
f. TXT x72708
f. TXT x72709
f. TXT x72710
f. TXT x72711
f. TXT x72712
f. TXT x72713
f. TXT x72714
f. TXT x72715
f. TXT x72716
f. TXT x72717
f. TXT x72718
f. TXT x72719
f. TXT x72720
f. TXT x72721
f. TXT x72722
f. TXT x72723
f. TXT x72724
f. TXT x72725
f. TXT x72726
f. TXT x72727
f. TXT x72728
f. TXT x72729
f. TXT x72730
f. TXT x72731
f. TXT x72732
f. TXT x72733
f. TXT x72734
f. TXT x72735
f. TXT x72736
f. TXT x72737
f. TXT x72738
f. TXT x72739
f. TXT x72740
f. TXT x72741
f. TXT x72742
f. TXT x72743
f. TXT x72744
f. TXT x72745
f. TXT x72746
f. TXT x72747
f. TXT x72748
f. TXT x72749
f. TXT x72750
f. TXT x72751
f. TXT x72752
f. TXT x72753
f. TXT x72754
f. TXT x72755
f. TXT x72756
f. TXT x72757
f. TXT x72758
f. TXT x72759
f. TXT x72760
f. TXT x72761
f. TXT x72762
f. TXT x72763
f. TXT x72764
f. TXT x72765
f. TXT x72766
f. TXT x72767
@ NS b
f. TXT x72769
f. TXT x72770
f. TXT x72771
f. TXT x72772
f. TXT x72773
f. TXT x72774
f. TXT x72775
f. TXT x72776
f. TXT x72777
f. TXT x72778
f. TXT x72779
f. TXT x72780
f. TXT x72781
f. TXT x72782
f. TXT x72783
f. TXT x72784
f. TXT x72785
f. TXT x72786
f. TXT x72787
f. TXT x72788
f. TXT x72789
f. TXT x72790
f. TXT x72791
f. TXT x72792
f. TXT x72793
f. TXT x72794
f. TXT x72795
f. TXT x72796
f. TXT x72797
f. TXT x72798
f. TXT x72799
f. TXT x72800
f. TXT x72801
f. TXT x72802
f. TXT x72803
f. TXT x72804
f. TXT x72805
f. TXT x72806
f. TXT x72807
f. TXT x72808
f. TXT x72809
f. TXT x72810
f. TXT x72811
f. TXT x72812
f. TXT x72813
f. TXT x72814
f. TXT x72815
f. TXT x72816
f. TXT x72817
f. TXT x72818
f. TXT x72819
f. TXT x72820
f. TXT x72821
f. TXT x72822
f. TXT x72823
f. TXT x72824
f. TXT x72825
f. TXT x72826
f. TXT x72827
f. TXT x72828
f. TXT x72829
f. TXT x72830
f. TXT x72831

f. TXT x72833
f. TXT x72834
f. TXT x72835
f. TXT x72836
f. TXT x72837
f. TXT x72838
f. TXT x72839
f. TXT x72840
f. TXT x72841
f. TXT x72842
f. TXT x72843
f. TXT x72844
f. TXT x72845
f. TXT x72846
f. TXT x72847
f. TXT x72848
f. TXT x72849
f. TXT x72850
f. TXT x72851
f. TXT x72852
f. TXT x72853
f. TXT x72854
f. TXT x72855
f. TXT x72856
f. TXT x72857
f. TXT x72858
f. TXT x72859
f. TXT x72860
f. TXT x72861
f. TXT x72862
f. TXT x72863
f. TXT x72864
f. TXT x72865
f. TXT x72866
f. TXT x72867
f. TXT x72868
f. TXT x72869
f. TXT x72870
f. TXT x72871
f. TXT x72872
f. TXT x72873
f. TXT x72874
f. TXT x72875
f. TXT x72876
f. TXT x72877
f. TXT x72878
f. TXT x72879
f. TXT x72880
f. TXT x72881
f. TXT x72882
f. TXT x72883
f. TXT x72884
f. TXT x72885
f. TXT x72886
f. TXT x72887
f. TXT x72888
f. TXT x72889
f. TXT x72890
f. TXT x72891
f. TXT x72892
f. TXT x72893
f. TXT x72894
f. TXT x72895
$ORIGIN a*.b0a*.
f. TXT x72897
f. TXT x72898
f. TXT x72899
f. TXT x72900
f. TXT x72901
f. TXT x72902
f. TXT x72903
f. TXT x72904
f. TXT x72905
f. TXT x72906
f. TXT x72907
f. TXT x72908
f. TXT x72909
f. TXT x72910
f. TXT x72911
f. TXT x72912
f. TXT x72913
f. TXT x72914
f. TXT x72915
f. TXT x72916
f. TXT x72917
f. TXT x72918
f. TXT x72919
f. TXT x72920
f. TXT x72921
f. TXT x72922
f. TXT x72923
f. TXT x72924
f. TXT x72925
f. TXT x72926
f. TXT x72927
f. TXT x72928
f. TXT x72929
f. TXT x72930
f. TXT x72931
f. TXT x72932
f. TXT x72933
f. TXT x72934
f. TXT x72935
f. TXT x72936
f. TXT x72937
f. TXT x72938
f. TXT x72939
f. TXT x72940
f. TXT x72941
f. TXT x72942
f. TXT x72943
f. TXT x72944
f. TXT x72945
f. TXT x72946
f. TXT x72947
f. TXT x72948
f. TXT x72949
f. TXT x72950
f. TXT x72951
f. TXT x72952
f. TXT x72953
f. TXT x72954
f. TXT x72955
f. TXT x72956
f. TXT x72957
f. TXT x72958
f. TXT x72959
 A 0c -czz 0-*a
f. TXT x72961
f. TXT x72962
f. TXT x72963
f. TXT x72964
f. TXT x72965
f. TXT x72966
f. TXT x72967
f. TXT x72968
f. TXT x72969
f. TXT x72970
f. TXT x72971
f. TXT x72972
f. TXT x72973
f. TXT x72974
f. TXT x72975
f. TXT x72976
f. TXT x72977
f. TXT x72978
f. TXT x72979
f. TXT x72980
f. TXT x72981
f. TXT x72982
f. TXT x72983
f. TXT x72984
f. TXT x72985
f. TXT x72986
f. TXT x72987
f. TXT x72988
f. TXT x72989
f. TXT x72990
f. TXT x72991
f. TXT x72992
f. TXT x72993
f. TXT x72994
f. TXT x72995
f. TXT x72996
f. TXT x72997
f. TXT x72998
f. TXT x72999
f. TXT x73000
f. TXT x73001
f. TXT x73002
f. TXT x73003
f. TXT x73004
f. TXT x73005
f. TXT x73006
f. TXT x73007
f. TXT x73008
f. TXT x73009
f. TXT x73010
f. TXT x73011
f. TXT x73012
f. TXT x73013
f. TXT x73014
f. TXT x73015
f. TXT x73016
f. TXT x73017
f. TXT x73018
f. TXT x73019
f. TXT x73020
f. TXT x73021
f. TXT x73022
f. TXT x73023
*. TXT c
f. TXT x73025
f. TXT x73026
f. TXT x73027
f. TXT x73028
f. TXT x73029
f. TXT x73030
f. TXT x73031
f. TXT x73032
f. TXT x73033
f. TXT x73034
f. TXT x73035
f. TXT x73036
f. TXT x73037
f. TXT x73038
f. TXT x73039
f. TXT x73040
f. TXT x73041
f. TXT x73042
f. TXT x73043
f. TXT x73044
f. TXT x73045
f. TXT x73046
f. TXT x73047
f. TXT x73048
f. TXT x73049
f. TXT x73050
f. TXT x73051
f. TXT x73052
f. TXT x73053
f. TXT x73054
f. TXT x73055
f. TXT x73056
f. TXT x73057
f. TXT x73058
f. TXT x73059
f. TXT x73060
f. TXT x73061
f. TXT x73062
f. TXT x73063
f. TXT x73064
f. TXT x73065
f. TXT x73066
f. TXT x73067
f. TXT x73068
f. TXT x73069
f. TXT x73070
f. TXT x73071
f. TXT x73072
f. TXT x73073
f. TXT x73074
f. TXT x73075
f. TXT x73076
f. TXT x73077
f. TXT x73078
f. TXT x73079
f. TXT x73080
f. TXT x73081
f. TXT x73082
f. TXT x73083
f. TXT x73084
f. TXT x73085
f. TXT x73086
f. TXT x73087
a. A x a*0c bb*y
f. TXT x73089
f. TXT x73090
f. TXT x73091
f. TXT x73092
f. TXT x73093
f. TXT x73094
f. TXT x73095
f. TXT x73096
f. TXT x73097
f. TXT x73098
f. TXT x73099
f. TXT x73100
f. TXT x73101
f. TXT x73102
f. TXT x73103
f. TXT x73104
f. TXT x73105
f. TXT x73106
f. TXT x73107
f. TXT x73108
f. TXT x73109
f. TXT x73110
f. TXT x73111
f. TXT x73112
f. TXT x73113
f. TXT x73114
f. TXT x73115
f. TXT x73116
f. TXT x73117
f. TXT x73118
f. TXT x73119
f. TXT x73120
f. TXT x73121
f. TXT x73122
f. TXT x73123
f. TXT x73124
f. TXT x73125
f. TXT x73126
f. TXT x73127
f. TXT x73128
f. TXT x73129
f. TXT x73130
f. TXT x73131
f. TXT x73132
f. TXT x73133
f. TXT x73134
f. TXT x73135
f. TXT x73136
f. TXT x73137
f. TXT x73138
f. TXT x73139
f. TXT x73140
f. TXT x73141
f. TXT x73142
f. TXT x73143
f. TXT x73144
f. TXT x73145
f. TXT x73146
f. TXT x73147
f. TXT x73148
f. TXT x73149
f. TXT x73150
f. TXT x73151
c0.zx. NS *0
f. TXT x73153
f. TXT x73154
f. TXT x73155
f. TXT x73156
f. TXT x73157
f. TXT x73158
f. TXT x73159
f. TXT x73160
f. TXT x73161
f. TXT x73162
f. TXT x73163
f. TXT x73164
f. TXT x73165
f. TXT x73166
f. TXT x73167
f. TXT x73168
f. TXT x73169
f. TXT x73170
f. TXT x73171
f. TXT x73172
f. TXT x73173
f. TXT x73174
f. TXT x73175
f. TXT x73176
f. TXT x73177
f. TXT x73178
f. TXT x73179
f. TXT x73180
f. TXT x73181
f. TXT x73182
f. TXT x73183
f. TXT x73184
f. TXT x73185
f. TXT x73186
f. TXT x73187
f. TXT x73188
f. TXT x73189
f. TXT x73190
f. TXT x73191
f. TXT x73192
f. TXT x73193
f. TXT x73194
f. TXT x73195
f. TXT x73196
f. TXT x73197
f. TXT x73198
f. TXT x73199
f. TXT x73200
f. TXT x73201
f. TXT x73202
f. TXT x73203
f. TXT x73204
f. TXT x73205
f. TXT x73206
f. TXT x73207
f. TXT x73208
f. TXT x73209
f. TXT x73210
f. TXT x73211
f. TXT x73212
f. TXT x73213
f. TXT x73214
f. TXT x73215
@ A b * y
f. TXT x73217
f. TXT x73218
f. TXT x73219
f. TXT x73220
f. TXT x73221
f. TXT x73222
f. TXT x73223
f. TXT x73224
f. TXT x73225
f. TXT x73226
f. TXT x73227
f. TXT x73228
f. TXT x73229
f. TXT x73230
f. TXT x73231
f. TXT x73232
f. TXT x73233
f. TXT x73234
f. TXT x73235
f. TXT x73236
f. TXT x73237
f. TXT x73238
f. TXT x73239
f. TXT x73240
f. TXT x73241
f. TXT x73242
f. TXT x73243
f. TXT x73244
f. TXT x73245
f. TXT x73246
f. TXT x73247
f. TXT x73248
f. TXT x73249
f. TXT x73250
f. TXT x73251
f. TXT x73252
f. TXT x73253
f. TXT x73254
f. TXT x73255
f. TXT x73256
f. TXT x73257
f. TXT x73258
f. TXT x73259
f. TXT x73260
f. TXT x73261
f. TXT x73262
f. TXT x73263
f. TXT x73264
f. TXT x73265
f. TXT x73266
f. TXT x73267
f. TXT x73268
f. TXT x73269
f. TXT x73270
f. TXT x73271
f. TXT x73272
f. TXT x73273
f. TXT x73274
f. TXT x73275
f. TXT x73276
f. TXT x73277
f. TXT x73278
f. TXT x73279
; zc*x
f. TXT x73281
f. TXT x73282
f. TXT x73283
f. TXT x73284
f. TXT x73285
f. TXT x73286
f. TXT x73287
f. TXT x73288
f. TXT x73289
f. TXT x73290
f. TXT x73291
f. TXT x73292
f. TXT x73293
f. TXT x73294
f. TXT x73295
f. TXT x73296
f. TXT x73297
f. TXT x73298
f. TXT x73299
f. TXT x73300
f. TXT x73301
f. TXT x73302
f. TXT x73303
f. TXT x73304
f. TXT x73305
f. TXT x73306
f. TXT x73307
f. TXT x73308
f. TXT x73309
f. TXT x73310
f. TXT x73311
f. TXT x73312
f. TXT x73313
f. TXT x73314
f. TXT x73315
f. TXT x73316
f. TXT x73317
f. TXT x73318
f. TXT x73319
f. TXT x73320
f. TXT x73321
f. TXT x73322
f. TXT x73323
f. TXT x73324
f. TXT x73325
f. TXT x73326
f. TXT x73327
f. TXT x73328
f. TXT x73329
f. TXT x73330
f. TXT x73331
f. TXT x73332
f. TXT x73333
f. TXT x73334
f. TXT x73335
f. TXT x73336
f. TXT x73337
f. TXT x73338
f. TXT x73339
f. TXT x73340
f. TXT x73341
f. TXT x73342
f. TXT x73343
 TXT x -z*b c*0
f. TXT x73345
f. TXT x73346
f. TXT x73347
f. TXT x73348
f. TXT x73349
f. TXT x73350
f. TXT x73351
f. TXT x73352
f. TXT x73353
f. TXT x73354
f. TXT x73355
f. TXT x73356
f. TXT x73357
f. TXT x73358
f. TXT x73359
f. TXT x73360
f. TXT x73361
f. TXT x73362
f. TXT x73363
f. TXT x73364
f. TXT x73365
f. TXT x73366
f. TXT x73367
f. TXT x73368
f. TXT x73369
f. TXT x73370
f. TXT x73371
f. TXT x73372
f. TXT x73373
f. TXT x73374
f. TXT x73375
f. TXT x73376
f. TXT x73377
f. TXT x73378
f. TXT x73379
f. TXT x73380
f. TXT x73381
f. TXT x73382
f. TXT x73383
f. TXT x73384
f. TXT x73385
f. TXT x73386
f. TXT x73387
f. TXT x73388
f. TXT x73389
f. TXT x73390
f. TXT x73391
f. TXT x73392
f. TXT x73393
f. TXT x73394
f. TXT x73395
f. TXT x73396
f. TXT x73397
f. TXT x73398
f. TXT x73399
f. TXT x73400
f. TXT x73401
f. TXT x73402
f. TXT x73403
f. TXT x73404
f. TXT x73405
f. TXT x73406
f. TXT x73407
 TXT -xc0 a
f. TXT x73409
f. TXT x73410
f. TXT x73411
f. TXT x73412
f. TXT x73413
f. TXT x73414
f. TXT x73415
f. TXT x73416
f. TXT x73417
f. TXT x73418
f. TXT x73419
f. TXT x73420
f. TXT x73421
f. TXT x73422
f. TXT x73423
f. TXT x73424
f. TXT x73425
f. TXT x73426
f. TXT x73427
f. TXT x73428
f. TXT x73429
f. TXT x73430
f. TXT x73431
f. TXT x73432
f. TXT x73433
f. TXT x73434
f. TXT x73435
f. TXT x73436
f. TXT x73437
f. TXT x73438
f. TXT x73439
f. TXT x73440
f. TXT x73441
f. TXT x73442
f. TXT x73443
f. TXT x73444
f. TXT x73445
f. TXT x73446
f. TXT x73447
f. TXT x73448
f. TXT x73449
f. TXT x73450
f. TXT x73451
f. TXT x73452
f. TXT x73453
f. TXT x73454
f. TXT x73455
f. TXT x73456
f. TXT x73457
f. TXT x73458
f. TXT x73459
f. TXT x73460
f. TXT x73461
f. TXT x73462
f. TXT x73463
f. TXT x73464
f. TXT x73465
f. TXT x73466
f. TXT x73467
f. TXT x73468
f. TXT x73469
f. TXT x73470
f. TXT x73471
@ TXT xcx- z x
f. TXT x73473
f. TXT x73474
f. TXT x73475
f. TXT x73476
f. TXT x73477
f. TXT x73478
f. TXT x73479
f. TXT x73480
f. TXT x73481
f. TXT x73482
f. TXT x73483
f. TXT x73484
f. TXT x73485
f. TXT x73486
f. TXT x73487
f. TXT x73488
f. TXT x73489
f. TXT x73490
f. TXT x73491
f. TXT x73492
f. TXT x73493
f. TXT x73494
f. TXT x73495
f. TXT x73496
f. TXT x73497
f. TXT x73498
f. TXT x73499
f. TXT x73500
f. TXT x73501
f. TXT x73502
f. TXT x73503
f. TXT x73504
f. TXT x73505
f. TXT x73506
f. TXT x73507
f. TXT x73508
f. TXT x73509
f. TXT x73510
f. TXT x73511
f. TXT x73512
f. TXT x73513
f. TXT x73514
f. TXT x73515
f. TXT x73516
f. TXT x73517
f. TXT x73518
f. TXT x73519
f. TXT x73520
f. TXT x73521
f. TXT x73522
f. TXT x73523
f. TXT x73524
f. TXT x73525
f. TXT x73526
f. TXT x73527
f. TXT x73528
f. TXT x73529
f. TXT x73530
f. TXT x73531
f. TXT x73532
f. TXT x73533
f. TXT x73534
f. TXT x73535
@ NS c0c -
f. TXT x73537
f. TXT x73538
f. TXT x73539
f. TXT x73540
f. TXT x73541
f. TXT x73542
f. TXT x73543
f. TXT x73544
f. TXT x73545
f. TXT x73546
f. TXT x73547
f. TXT x73548
f. TXT x73549
f. TXT x73550
f. TXT x73551
f. TXT x73552
f. TXT x73553
f. TXT x73554
f. TXT x73555
f. TXT x73556
f. TXT x73557
f. TXT x73558
f. TXT x73559
f. TXT x73560
f. TXT x73561
f. TXT x73562
f. TXT x73563
f. TXT x73564
f. TXT x73565
f. TXT x73566
f. TXT x73567
f. TXT x73568
f. TXT x73569
f. TXT x73570
f. TXT x73571
f. TXT x73572
f. TXT x73573
f. TXT x73574
f. TXT x73575
f. TXT x73576
f. TXT x73577
f. TXT x73578
f. TXT x73579
f. TXT x73580
f. TXT x73581
f. TXT x73582
f. TXT x73583
f. TXT x73584
f. TXT x73585
f. TXT x73586
f. TXT x73587
f. TXT x73588
f. TXT x73589
f. TXT x73590
f. TXT x73591
f. TXT x73592
f. TXT x73593
f. TXT x73594
f. TXT x73595
f. TXT x73596
f. TXT x73597
f. TXT x73598
f. TXT x73599
$TTL 30
f. TXT x73601
f. TXT x73602
f. TXT x73603
f. TXT x73604
f. TXT x73605
f. TXT x73606
f. TXT x73607
f. TXT x73608
f. TXT x73609
f. TXT x73610
f. TXT x73611
f. TXT x73612
f. TXT x73613
f. TXT x73614
f. TXT x73615
f. TXT x73616
f. TXT x73617
f. TXT x73618
f. TXT x73619
f. TXT x73620
f. TXT x73621
f. TXT x73622
f. TXT x73623
f. TXT x73624
f. TXT x73625
f. TXT x73626
f. TXT x73627
f. TXT x73628
f. TXT x73629
f. TXT x73630
f. TXT x73631
f. TXT x73632
f. TXT x73633
f. TXT x73634
f. TXT x73635
f. TXT x73636
f. TXT x73637
f. TXT x73638
f. TXT x73639
f. TXT x73640
f. TXT x73641
f. TXT x73642
f. TXT x73643
f. TXT x73644
f. TXT x73645
f. TXT x73646
f. TXT x73647
f. TXT x73648
f. TXT x73649
f. TXT x73650
f. TXT x73651
f. TXT x73652
f. TXT x73653
f. TXT x73654
f. TXT x73655
f. TXT x73656
f. TXT x73657
f. TXT x73658
f. TXT x73659
f. TXT x73660
f. TXT x73661
f. TXT x73662
f. TXT x73663
@ TXT ycb x**0 axa-
f. TXT x73665
f. TXT x73666
f. TXT x73667
f. TXT x73668
f. TXT x73669
f. TXT x73670
f. TXT x73671
f. TXT x73672
f. TXT x73673
f. TXT x73674
f. TXT x73675
f. TXT x73676
f. TXT x73677
f. TXT x73678
f. TXT x73679
f. TXT x73680
f. TXT x73681
f. TXT x73682
f. TXT x73683
f. TXT x73684
f. TXT x73685
f. TXT x73686
f. TXT x73687
f. TXT x73688
f. TXT x73689
f. TXT x73690
f. TXT x73691
f. TXT x73692
f. TXT x73693
f. TXT x73694
f. TXT x73695
f. TXT x73696
f. TXT x73697
f. TXT x73698
f. TXT x73699
f. TXT x73700
f. TXT x73701
f. TXT x73702
f. TXT x73703
f. TXT x73704
f. TXT x73705
f. TXT x73706
f. TXT x73707
f. TXT x73708
f. TXT x73709
f. TXT x73710
f. TXT x73711
f. TXT x73712
f. TXT x73713
f. TXT x73714
f. TXT x73715
f. TXT x73716
f. TXT x73717
f. TXT x73718
f. TXT x73719
f. TXT x73720
f. TXT x73721
f. TXT x73722
f. TXT x73723
f. TXT x73724
f. TXT x73725
f. TXT x73726
f. TXT x73727

f. TXT x73729
f. TXT x73730
f. TXT x73731
f. TXT x73732
f. TXT x73733
f. TXT x73734
f. TXT x73735
f. TXT x73736
f. TXT x73737
f. TXT x73738
f. TXT x73739
f. TXT x73740
f. TXT x73741
f. TXT x73742
f. TXT x73743
f. TXT x73744
f. TXT x73745
f. TXT x73746
f. TXT x73747
f. TXT x73748
f. TXT x73749
f. TXT x73750
f. TXT x73751
f. TXT x73752
f. TXT x73753
f. TXT x73754
f. TXT x73755
f. TXT x73756
f. TXT x73757
f. TXT x73758
f. TXT x73759
f. TXT x73760
f. TXT x73761
f. TXT x73762
f. TXT x73763
f. TXT x73764
f. TXT x73765
f. TXT x73766
f. TXT x73767
f. TXT x73768
f. TXT x73769
f. TXT x73770
f. TXT x73771
f. TXT x73772
f. TXT x73773
f. TXT x73774
f. TXT x73775
f. TXT x73776
f. TXT x73777
f. TXT x73778
f. TXT x73779
f. TXT x73780
f. TXT x73781
f. TXT x73782
f. TXT x73783
f. TXT x73784
f. TXT x73785
f. TXT x73786
f. TXT x73787
f. TXT x73788
f. TXT x73789
f. TXT x73790
f. TXT x73791
@ A bc0a a zya0
f. TXT x73793
f. TXT x73794
f. TXT x73795
f. TXT x73796
f. TXT x73797
f. TXT x73798
f. TXT x73799
f. TXT x73800
f. TXT x73801
f. TXT x73802
f. TXT x73803
f. TXT x73804
f. TXT x73805
f. TXT x73806
f. TXT x73807
f. TXT x73808
f. TXT x73809
f. TXT x73810
f. TXT x73811
f. TXT x73812
f. TXT x73813
f. TXT x73814
f. TXT x73815
f. TXT x73816
f. TXT x73817
f. TXT x73818
f. TXT x73819
f. TXT x73820
f. TXT x73821
f. TXT x73822
f. TXT x73823
f. TXT x73824
f. TXT x73825
f. TXT x73826
f. TXT x73827
f. TXT x73828
f. TXT x73829
f. TXT x73830
f. TXT x73831
f. TXT x73832
f. TXT x73833
f. TXT x73834
f. TXT x73835
f. TXT x73836
f. TXT x73837
f. TXT x73838
f. TXT x73839
f. TXT x73840
f. TXT x73841
f. TXT x73842
f. TXT x73843
f. TXT x73844
f. TXT x73845
f. TXT x73846
f. TXT x73847
f. TXT x73848
f. TXT x73849
f. TXT x73850
f. TXT x73851
f. TXT x73852
f. TXT x73853
f. TXT x73854
f. TXT x73855
@ A xzza
f. TXT x73857
f. TXT x73858
f. TXT x73859
f. TXT x73860
f. TXT x73861
f. TXT x73862
f. TXT x73863
f. TXT x73864
f. TXT x73865
f. TXT x73866
f. TXT x73867
f. TXT x73868
f. TXT x73869
f. TXT x73870
f. TXT x73871
f. TXT x73872
f. TXT x73873
f. TXT x73874
f. TXT x73875
f. TXT x73876
f. TXT x73877
f. TXT x73878
f. TXT x73879
f. TXT x73880
f. TXT x73881
f. TXT x73882
f. TXT x73883
f. TXT x73884
f. TXT x73885
f. TXT x73886
f. TXT x73887
f. TXT x73888
f. TXT x73889
f. TXT x73890
f. TXT x73891
f. TXT x73892
f. TXT x73893
f. TXT x73894
f. TXT x73895
f. TXT x73896
f. TXT x73897
f. TXT x73898
f. TXT x73899
f. TXT x73900
f. TXT x73901
f. TXT x73902
f. TXT x73903
f. TXT x73904
f. TXT x73905
f. TXT x73906
f. TXT x73907
f. TXT x73908
f. TXT x73909
f. TXT x73910
f. TXT x73911
f. TXT x73912
f. TXT x73913
f. TXT x73914
f. TXT x73915
f. TXT x73916
f. TXT x73917
f. TXT x73918
f. TXT x73919
-a.a-. A xb 0c xc*
f. TXT x73921
f. TXT x73922
f. TXT x73923
f. TXT x73924
f. TXT x73925
f. TXT x73926
f. TXT x73927
f. TXT x73928
f. TXT x73929
f. TXT x73930
f. TXT x73931
f. TXT x73932
f. TXT x73933
f. TXT x73934
f. TXT x73935
f. TXT x73936
f. TXT x73937
f. TXT x73938
f. TXT x73939
f. TXT x73940
f. TXT x73941
f. TXT x73942
f. TXT x73943
f. TXT x73944
f. TXT x73945
f. TXT x73946
f. TXT x73947
f. TXT x73948
f. TXT x73949
f. TXT x73950
f. TXT x73951
f. TXT x73952
f. TXT x73953
f. TXT x73954
f. TXT x73955
f. TXT x73956
f. TXT x73957
f. TXT x73958
f. TXT x73959
f. TXT x73960
f. TXT x73961
f. TXT x73962
f. TXT x73963
f. TXT x73964
f. TXT x73965
f. TXT x73966
f. TXT x73967
f. TXT x73968
f. TXT x73969
f. TXT x73970
f. TXT x73971
f. TXT x73972
f. TXT x73973
f. TXT x73974
f. TXT x73975
f. TXT x73976
f. TXT x73977
f. TXT x73978
f. TXT x73979
f. TXT x73980
f. TXT x73981
f. TXT x73982
f. TXT x73983
 NS -
f. TXT x73985
f. TXT x73986
f. TXT x73987
f. TXT x73988
f. TXT x73989
f. TXT x73990
f. TXT x73991
f. TXT x73992
f. TXT x73993
f. TXT x73994
f. TXT x73995
f. TXT x73996
f. TXT x73997
f. TXT x73998
f. TXT x73999
f. TXT x74000
f. TXT x74001
f. TXT x74002
f. TXT x74003
f. TXT x74004
f. TXT x74005
f. TXT x74006
f. TXT x74007
f. TXT x74008
f. TXT x74009
f. TXT x74010
f. TXT x74011
f. TXT x74012
f. TXT x74013
f. TXT x74014
f. TXT x74015
f. TXT x74016
f. TXT x74017
f. TXT x74018
f. TXT x74019
f. TXT x74020
f. TXT x74021
f. TXT x74022
f. TXT x74023
f. TXT x74024
f. TXT x74025
f. TXT x74026
f. TXT x74027
f. TXT x74028
f. TXT x74029
f. TXT x74030
f. TXT x74031
f. TXT x74032
f. TXT x74033
f. TXT x74034
f. TXT x74035
f. TXT x74036
f. TXT x74037
f. TXT x74038
f. TXT x74039
f. TXT x74040
f. TXT x74041
f. TXT x74042
f. TXT x74043
f. TXT x74044
f. TXT x74045
f. TXT x74046
f. TXT x74047
zx.ay*b. NS *b0
f. TXT x74049
f. TXT x74050
f. TXT x74051
f. TXT x74052
f. TXT x74053
f. TXT x74054
f. TXT x74055
f. TXT x74056
f. TXT x74057
f. TXT x74058
f. TXT x74059
f. TXT x74060
f. TXT x74061
f. TXT x74062
f. TXT x74063
f. TXT x74064
f. TXT x74065
f. TXT x74066
f. TXT x74067
f. TXT x74068
f. TXT x74069
f. TXT x74070
f. TXT x74071
f. TXT x74072
f. TXT x74073
f. TXT x74074
f. TXT x74075
f. TXT x74076
f. TXT x74077
f. TXT x74078
f. TXT x74079
f. TXT x74080
f. TXT x74081
f. TXT x74082
f. TXT x74083
f. TXT x74084
f. TXT x74085
f. TXT x74086
f. TXT x74087
f. TXT x74088
f. TXT x74089
f. TXT x74090
f. TXT x74091
f. TXT x74092
f. TXT x74093
f. TXT x74094
f. TXT x74095
f. TXT x74096
f. TXT x74097
f. TXT x74098
f. TXT x74099
f. TXT x74100
f. TXT x74101
f. TXT x74102
f. TXT x74103
f. TXT x74104
f. TXT x74105
f. TXT x74106
f. TXT x74107
f. TXT x74108
f. TXT x74109
f. TXT x74110
f. TXT x74111

f. TXT x74113
f. TXT x74114
f. TXT x74115
f. TXT x74116
f. TXT x74117
f. TXT x74118
f. TXT x74119
f. TXT x74120
f. TXT x74121
f. TXT x74122
f. TXT x74123
f. TXT x74124
f. TXT x74125
f. TXT x74126
f. TXT x74127
f. TXT x74128
f. TXT x74129
f. TXT x74130
f. TXT x74131
f. TXT x74132
f. TXT x74133
f. TXT x74134
f. TXT x74135
f. TXT x74136
f. TXT x74137
f. TXT x74138
f. TXT x74139
f. TXT x74140
f. TXT x74141
f. TXT x74142
f. TXT x74143
f. TXT x74144
f. TXT x74145
f. TXT x74146
f. TXT x74147
f. TXT x74148
f. TXT x74149
f. TXT x74150
f. TXT x74151
f. TXT x74152
f. TXT x74153
f. TXT x74154
f. TXT x74155
f. TXT x74156
f. TXT x74157
f. TXT x74158
f. TXT x74159
f. TXT x74160
f. TXT x74161
f. TXT x74162
f. TXT x74163
f. TXT x74164
f. TXT x74165
f. TXT x74166
f. TXT x74167
f. TXT x74168
f. TXT x74169
f. TXT x74170
f. TXT x74171
f. TXT x74172
f. TXT x74173
f. TXT x74174
f. TXT x74175
 TXT b00* z
f. TXT x74177
f. TXT x74178
f. TXT x74179
f. TXT x74180
f. TXT x74181
f. TXT x74182
f. TXT x74183
f. TXT x74184
f. TXT x74185
f. TXT x74186
f. TXT x74187
f. TXT x74188
f. TXT x74189
f. TXT x74190
f. TXT x74191
f. TXT x74192
f. TXT x74193
f. TXT x74194
f. TXT x74195
f. TXT x74196
f. TXT x74197
f. TXT x74198
f. TXT x74199
f. TXT x74200
f. TXT x74201
f. TXT x74202
f. TXT x74203
f. TXT x74204
f. TXT x74205
f. TXT x74206
f. TXT x74207
f. TXT x74208
f. TXT x74209
f. TXT x74210
f. TXT x74211
f. TXT x74212
f. TXT x74213
f. TXT x74214
f. TXT x74215
f. TXT x74216
f. TXT x74217
f. TXT x74218
f. TXT x74219
f. TXT x74220
f. TXT x74221
f. TXT x74222
f. TXT x74223
f. TXT x74224
f. TXT x74225
f. TXT x74226
f. TXT x74227
f. TXT x74228
f. TXT x74229
f. TXT x74230
f. TXT x74231
f. TXT x74232
f. TXT x74233
f. TXT x74234
f. TXT x74235
f. TXT x74236
f. TXT x74237
f. TXT x74238
f. TXT x74239
0cx- NS ab*- * -c-a
f. TXT x74241
f. TXT x74242
f. TXT x74243
f. TXT x74244
f. TXT x74245
f. TXT x74246
f. TXT x74247
f. TXT x74248
f. TXT x74249
f. TXT x74250
f. TXT x74251
f. TXT x74252
f. TXT x74253
f. TXT x74254
f. TXT x74255
f. TXT x74256
f. TXT x74257
f. TXT x74258
f. TXT x74259
f. TXT x74260
f. TXT x74261
f. TXT x74262
f. TXT x74263
f. TXT x74264
f. TXT x74265
f. TXT x74266
f. TXT x74267
f. TXT x74268
f. TXT x74269
f. TXT x74270
f. TXT x74271
f. TXT x74272
f. TXT x74273
f. TXT x74274
f. TXT x74275
f. TXT x74276
f. TXT x74277
f. TXT x74278
f. TXT x74279
f. TXT x74280
f. TXT x74281
f. TXT x74282
f. TXT x74283
f. TXT x74284
f. TXT x74285
f. TXT x74286
f. TXT x74287
f. TXT x74288
f. TXT x74289
f. TXT x74290
f. TXT x74291
f. TXT x74292
f. TXT x74293
f. TXT x74294
f. TXT x74295
f. TXT x74296
f. TXT x74297
f. TXT x74298
f. TXT x74299
f. TXT x74300
f. TXT x74301
f. TXT x74302
f. TXT x74303

f. TXT x74305
f. TXT x74306
f. TXT x74307
f. TXT x74308
f. TXT x74309
f. TXT x74310
f. TXT x74311
f. TXT x74312
f. TXT x74313
f. TXT x74314
f. TXT x74315
f. TXT x74316
f. TXT x74317
f. TXT x74318
f. TXT x74319
f. TXT x74320
f. TXT x74321
f. TXT x74322
f. TXT x74323
f. TXT x74324
f. TXT x74325
f. TXT x74326
f. TXT x74327
f. TXT x74328
f. TXT x74329
f. TXT x74330
f. TXT x74331
f. TXT x74332
f. TXT x74333
f. TXT x74334
f. TXT x74335
f. TXT x74336
f. TXT x74337
f. TXT x74338
f. TXT x74339
f. TXT x74340
f. TXT x74341
f. TXT x74342
f. TXT x74343
f. TXT x74344
f. TXT x74345
f. TXT x74346
f. TXT x74347
f. TXT x74348
f. TXT x74349
f. TXT x74350
f. TXT x74351
f. TXT x74352
f. TXT x74353
f. TXT x74354
f. TXT x74355
f. TXT x74356
f. TXT x74357
f. TXT x74358
f. TXT x74359
f. TXT x74360
f. TXT x74361
f. TXT x74362
f. TXT x74363
f. TXT x74364
f. TXT x74365
f. TXT x74366
f. TXT x74367
@ NS axb0
f. TXT x74369
f. TXT x74370
f. TXT x74371
f. TXT x74372
f. TXT x74373
f. TXT x74374
f. TXT x74375
f. TXT x74376
f. TXT x74377
f. TXT x74378
f. TXT x74379
f. TXT x74380
f. TXT x74381
f. TXT x74382
f. TXT x74383
f. TXT x74384
f. TXT x74385
f. TXT x74386
f. TXT x74387
f. TXT x74388
f. TXT x74389
f. TXT x74390
f. TXT x74391
f. TXT x74392
f. TXT x74393
f. TXT x74394
f. TXT x74395
f. TXT x74396
f. TXT x74397
f. TXT x74398
f. TXT x74399
f. TXT x74400
f. TXT x74401
f. TXT x74402
f. TXT x74403
f. TXT x74404
f. TXT x74405
f. TXT x74406
f. TXT x74407
f. TXT x74408
f. TXT x74409
f. TXT x74410
f. TXT x74411
f. TXT x74412
f. TXT x74413
f. TXT x74414
f. TXT x74415
f. TXT x74416
f. TXT x74417
f. TXT x74418
f. TXT x74419
f. TXT x74420
f. TXT x74421
f. TXT x74422
f. TXT x74423
f. TXT x74424
f. TXT x74425
f. TXT x74426
f. TXT x74427
f. TXT x74428
f. TXT x74429
f. TXT x74430
f. TXT x74431
b-.-. TXT *x
f. TXT x74433
f. TXT x74434
f. TXT x74435
f. TXT x74436
f. TXT x74437
f. TXT x74438
f. TXT x74439
f. TXT x74440
f. TXT x74441
f. TXT x74442
f. TXT x74443
f. TXT x74444
f. TXT x74445
f. TXT x74446
f. TXT x74447
f. TXT x74448
f. TXT x74449
f. TXT x74450
f. TXT x74451
f. TXT x74452
f. TXT x74453
f. TXT x74454
f. TXT x74455
f. TXT x74456
f. TXT x74457
f. TXT x74458
f. TXT x74459
f. TXT x74460
f. TXT x74461
f. TXT x74462
f. TXT x74463
f. TXT x74464
f. TXT x74465
f. TXT x74466
f. TXT x74467
f. TXT x74468
f. TXT x74469
f. TXT x74470
f. TXT x74471
f. TXT x74472
f. TXT x74473
f. TXT x74474
f. TXT x74475
f. TXT x74476
f. TXT x74477
f. TXT x74478
f. TXT x74479
f. TXT x74480
f. TXT x74481
f. TXT x74482
f. TXT x74483
f. TXT x74484
f. TXT x74485
f. TXT x74486
f. TXT x74487
f. TXT x74488
f. TXT x74489
f. TXT x74490
f. TXT x74491
f. TXT x74492
f. TXT x74493
f. TXT x74494
f. TXT x74495
b A zc ya *yx
f. TXT x74497
f. TXT x74498
f. TXT x74499
f. TXT x74500
f. TXT x74501
f. TXT x74502
f. TXT x74503
f. TXT x74504
f. TXT x74505
f. TXT x74506
f. TXT x74507
f. TXT x74508
f. TXT x74509
f. TXT x74510
f. TXT x74511
f. TXT x74512
f. TXT x74513
f. TXT x74514
f. TXT x74515
f. TXT x74516
f. TXT x74517
f. TXT x74518
f. TXT x74519
f. TXT x74520
f. TXT x74521
f. TXT x74522
f. TXT x74523
f. TXT x74524
f. TXT x74525
f. TXT x74526
f. TXT x74527
f. TXT x74528
f. TXT x74529
f. TXT x74530
f. TXT x74531
f. TXT x74532
f. TXT x74533
f. TXT x74534
f. TXT x74535
f. TXT x74536
f. TXT x74537
f. TXT x74538
f. TXT x74539
f. TXT x74540
f. TXT x74541
f. TXT x74542
f. TXT x74543
f. TXT x74544
f. TXT x74545
f. TXT x74546
f. TXT x74547
f. TXT x74548
f. TXT x74549
f. TXT x74550
f. TXT x74551
f. TXT x74552
f. TXT x74553
f. TXT x74554
f. TXT x74555
f. TXT x74556
f. TXT x74557
f. TXT x74558
f. TXT x74559
; zy0
f. TXT x74561
f. TXT x74562
f. TXT x74563
f. TXT x74564
f. TXT x74565
f. TXT x74566
f. TXT x74567
f. TXT x74568
f. TXT x74569
f. TXT x74570
f. TXT x74571
f. TXT x74572
f. TXT x74573
f. TXT x74574
f. TXT x74575
f. TXT x74576
f. TXT x74577
f. TXT x74578
f. TXT x74579
f. TXT x74580
f. TXT x74581
f. TXT x74582
f. TXT x74583
f. TXT x74584
f. TXT x74585
f. TXT x74586
f. TXT x74587
f. TXT x74588
f. TXT x74589
f. TXT x74590
f. TXT x74591
f. TXT x74592
f. TXT x74593
f. TXT x74594
f. TXT x74595
f. TXT x74596
f. TXT x74597
f. TXT x74598
f. TXT x74599
f. TXT x74600
f. TXT x74601
f. TXT x74602
f. TXT x74603
f. TXT x74604
f. TXT x74605
f. TXT x74606
f. TXT x74607
f. TXT x74608
f. TXT x74609
f. TXT x74610
f. TXT x74611
f. TXT x74612
f. TXT x74613
f. TXT x74614
f. TXT x74615
f. TXT x74616
f. TXT x74617
f. TXT x74618
f. TXT x74619
f. TXT x74620
f. TXT x74621
f. TXT x74622
f. TXT x74623
c-* TXT 0- zzxc
f. TXT x74625
f. TXT x74626
f. TXT x74627
f. TXT x74628
f. TXT x74629
f. TXT x74630
f. TXT x74631
f. TXT x74632
f. TXT x74633
f. TXT x74634
f. TXT x74635
f. TXT x74636
f. TXT x74637
f. TXT x74638
f. TXT x74639
f. TXT x74640
f. TXT x74641
f. TXT x74642
f. TXT x74643
f. TXT x74644
f. TXT x74645
f. TXT x74646
f. TXT x74647
f. TXT x74648
f. TXT x74649
f. TXT x74650
f. TXT x74651
f. TXT x74652
f. TXT x74653
f. TXT x74654
f. TXT x74655
f. TXT x74656
f. TXT x74657
f. TXT x74658
f. TXT x74659
f. TXT x74660
f. TXT x74661
f. TXT x74662
f. TXT x74663
f. TXT x74664
f. TXT x74665
f. TXT x74666
f. TXT x74667
f. TXT x74668
f. TXT x74669
f. TXT x74670
f. TXT x74671
f. TXT x74672
f. TXT x74673
f. TXT x74674
f. TXT x74675
f. TXT x74676
f. TXT x74677
f. TXT x74678
f. TXT x74679
f. TXT x74680
f. TXT x74681
f. TXT x74682
f. TXT x74683
f. TXT x74684
f. TXT x74685
f. TXT x74686
f. TXT x74687
$ORIGIN z.*.
f. TXT x74689
f. TXT x74690
f. TXT x74691
f. TXT x74692
f. TXT x74693
f. TXT x74694
f. TXT x74695
f. TXT x74696
f. TXT x74697
f. TXT x74698
f. TXT x74699
f. TXT x74700
f. TXT x74701
f. TXT x74702
f. TXT x74703
f. TXT x74704
f. TXT x74705
f. TXT x74706
f. TXT x74707
f. TXT x74708
f. TXT x74709
f. TXT x74710
f. TXT x74711
f. TXT x74712
f. TXT x74713
f. TXT x74714
f. TXT x74715
f. TXT x74716
f. TXT x74717
f. TXT x74718
f. TXT x74719
f. TXT x74720
f. TXT x74721
f. TXT x74722
f. TXT x74723
f. TXT x74724
f. TXT x74725
f. TXT x74726
f. TXT x74727
f. TXT x74728
f. TXT x74729
f. TXT x74730
f. TXT x74731
f. TXT x74732
f. TXT x74733
f. TXT x74734
f. TXT x74735
f. TXT x74736
f. TXT x74737
f. TXT x74738
f. TXT x74739
f. TXT x74740
f. TXT x74741
f. TXT x74742
f. TXT x74743
f. TXT x74744
f. TXT x74745
f. TXT x74746
f. TXT x74747
f. TXT x74748
f. TXT x74749
f. TXT x74750
f. TXT x74751
$ORIGIN zcb.
f. TXT x74753
f. TXT x74754
f. TXT x74755
f. TXT x74756
f. TXT x74757
f. TXT x74758
f. TXT x74759
f. TXT x74760
f. TXT x74761
f. TXT x74762
f. TXT x74763
f. TXT x74764
f. TXT x74765
f. TXT x74766
f. TXT x74767
f. TXT x74768
f. TXT x74769
f. TXT x74770
f. TXT x74771
f. TXT x74772
f. TXT x74773
f. TXT x74774
f. TXT x74775
f. TXT x74776
f. TXT x74777
f. TXT x74778
f. TXT x74779
f. TXT x74780
f. TXT x74781
f. TXT x74782
f. TXT x74783
f. TXT x74784
f. TXT x74785
f. TXT x74786
f. TXT x74787
f. TXT x74788
f. TXT x74789
f. TXT x74790
f. TXT x74791
f. TXT x74792
f. TXT x74793
f. TXT x74794
f. TXT x74795
f. TXT x74796
f. TXT x74797
f. TXT x74798
f. TXT x74799
f. TXT x74800
f. TXT x74801
f. TXT x74802
f. TXT x74803
f. TXT x74804
f. TXT x74805
f. TXT x74806
f. TXT x74807
f. TXT x74808
f. TXT x74809
f. TXT x74810
f. TXT x74811
f. TXT x74812
f. TXT x74813
f. TXT x74814
f. TXT x74815

f. TXT x74817
f. TXT x74818
f. TXT x74819
f. TXT x74820
f. TXT x74821
f. TXT x74822
f. TXT x74823
f. TXT x74824
f. TXT x74825
f. TXT x74826
f. TXT x74827
f. TXT x74828
f. TXT x74829
f. TXT x74830
f. TXT x74831
f. TXT x74832
f. TXT x74833
f. TXT x74834
f. TXT x74835
f. TXT x74836
f. TXT x74837
f. TXT x74838
f. TXT x74839
f. TXT x74840
f. TXT x74841
f. TXT x74842
f. TXT x74843
f. TXT x74844
f. TXT x74845
f. TXT x74846
f. TXT x74847
f. TXT x74848
f. TXT x74849
f. TXT x74850
f. TXT x74851
f. TXT x74852
f. TXT x74853
f. TXT x74854
f. TXT x74855
f. TXT x74856
f. TXT x74857
f. TXT x74858
f. TXT x74859
f. TXT x74860
f. TXT x74861
f. TXT x74862
f. TXT x74863
f. TXT x74864
f. TXT x74865
f. TXT x74866
f. TXT x74867
f. TXT x74868
f. TXT x74869
f. TXT x74870
f. TXT x74871
f. TXT x74872
f. TXT x74873
f. TXT x74874
f. TXT x74875
f. TXT x74876
f. TXT x74877
f. TXT x74878
f. TXT x74879
0c TXT x
f. TXT x74881
f. TXT x74882
f. TXT x74883
f. TXT x74884
f. TXT x74885
f. TXT x74886
f. TXT x74887
f. TXT x74888
f. TXT x74889
f. TXT x74890
f. TXT x74891
f. TXT x74892
f. TXT x74893
f. TXT x74894
f. TXT x74895
f. TXT x74896
f. TXT x74897
f. TXT x74898
f. TXT x74899
f. TXT x74900
f. TXT x74901
f. TXT x74902
f. TXT x74903
f. TXT x74904
f. TXT x74905
f. TXT x74906
f. TXT x74907
f. TXT x74908
f. TXT x74909
f. TXT x74910
f. TXT x74911
f. TXT x74912
f. TXT x74913
f. TXT x74914
f. TXT x74915
f. TXT x74916
f. TXT x74917
f. TXT x74918
f. TXT x74919
f. TXT x74920
f. TXT x74921
f. TXT x74922
f. TXT x74923
f. TXT x74924
f. TXT x74925
f. TXT x74926
f. TXT x74927
f. TXT x74928
f. TXT x74929
f. TXT x74930
f. TXT x74931
f. TXT x74932
f. TXT x74933
f. TXT x74934
f. TXT x74935
f. TXT x74936
f. TXT x74937
f. TXT x74938
f. TXT x74939
f. TXT x74940
f. TXT x74941
f. TXT x74942
f. TXT x74943
@ A yxy 0
f. TXT x74945
f. TXT x74946
f. TXT x74947
f. TXT x74948
f. TXT x74949
f. TXT x74950
f. TXT x74951
f. TXT x74952
f. TXT x74953
f. TXT x74954
f. TXT x74955
f. TXT x74956
f. TXT x74957
f. TXT x74958
f. TXT x74959
f. TXT x74960
f. TXT x74961
f. TXT x74962
f. TXT x74963
f. TXT x74964
f. TXT x74965
f. TXT x74966
f. TXT x74967
f. TXT x74968
f. TXT x74969
f. TXT x74970
f. TXT x74971
f. TXT x74972
f. TXT x74973
f. TXT x74974
f. TXT x74975
f. TXT x74976
f. TXT x74977
f. TXT x74978
f. TXT x74979
f. TXT x74980
f. TXT x74981
f. TXT x74982
f. TXT x74983
f. TXT x74984
f. TXT x74985
f. TXT x74986
f. TXT x74987
f. TXT x74988
f. TXT x74989
f. TXT x74990
f. TXT x74991
f. TXT x74992
f. TXT x74993
f. TXT x74994
f. TXT x74995
f. TXT x74996
f. TXT x74997
f. TXT x74998
f. TXT x74999
f. TXT x75000
f. TXT x75001
f. TXT x75002
f. TXT x75003
f. TXT x75004
f. TXT x75005
f. TXT x75006
f. TXT x75007
*xy.c. TXT 0 -y- ba
f. TXT x75009
f. TXT x75010
f. TXT x75011
f. TXT x75012
f. TXT x75013
f. TXT x75014
f. TXT x75015
f. TXT x75016
f. TXT x75017
f. TXT x75018
f. TXT x75019
f. TXT x75020
f. TXT x75021
f. TXT x75022
f. TXT x75023
f. TXT x75024
f. TXT x75025
f. TXT x75026
f. TXT x75027
f. TXT x75028
f. TXT x75029
f. TXT x75030
f. TXT x75031
f. TXT x75032
f. TXT x75033
f. TXT x75034
f. TXT x75035
f. TXT x75036
f. TXT x75037
f. TXT x75038
f. TXT x75039
f. TXT x75040
f. TXT x75041
f. TXT x75042
f. TXT x75043
f. TXT x75044
f. TXT x75045
f. TXT x75046
f. TXT x75047
f. TXT x75048
f. TXT x75049
f. TXT x75050
f. TXT x75051
f. TXT x75052
f. TXT x75053
f. TXT x75054
f. TXT x75055
f. TXT x75056
f. TXT x75057
f. TXT x75058
f. TXT x75059
f. TXT x75060
f. TXT x75061
f. TXT x75062
f. TXT x75063
f. TXT x75064
f. TXT x75065
f. TXT x75066
f. TXT x75067
f. TXT x75068
f. TXT x75069
f. TXT x75070
f. TXT x75071
*c0.0. NS y* zyc0 -y*c
f. TXT x75073
f. TXT x75074
f. TXT x75075
f. TXT x75076
f. TXT x75077
f. TXT x75078
f. TXT x75079
f. TXT x75080
f. TXT x75081
f. TXT x75082
f. TXT x75083
f. TXT x75084
f. TXT x75085
f. TXT x75086
f. TXT x75087
f. TXT x75088
f. TXT x75089
f. TXT x75090
f. TXT x75091
f. TXT x75092
f. TXT x75093
f. TXT x75094
f. TXT x75095
f. TXT x75096
f. TXT x75097
f. TXT x75098
f. TXT x75099
f. TXT x75100
f. TXT x75101
f. TXT x75102
f. TXT x75103
f. TXT x75104
f. TXT x75105
f. TXT x75106
f. TXT x75107
f. TXT x75108
f. TXT x75109
f. TXT x75110
f. TXT x75111
f. TXT x75112
f. TXT x75113
f. TXT x75114
f. TXT x75115
f. TXT x75116
f. TXT x75117
f. TXT x75118
f. TXT x75119
f. TXT x75120
f. TXT x75121
f. TXT x75122
f. TXT x75123
f. TXT x75124
f. TXT x75125
f. TXT x75126
f. TXT x75127
f. TXT x75128
f. TXT x75129
f. TXT x75130
f. TXT x75131
f. TXT x75132
f. TXT x75133
f. TXT x75134
f. TXT x75135

f. TXT x75137
f. TXT x75138
f. TXT x75139
f. TXT x75140
f. TXT x75141
f. TXT x75142
f. TXT x75143
f. TXT x75144
f. TXT x75145
f. TXT x75146
f. TXT x75147
f. TXT x75148
f. TXT x75149
f. TXT x75150
f. TXT x75151
f. TXT x75152
f. TXT x75153
f. TXT x75154
f. TXT x75155
f. TXT x75156
f. TXT x75157
f. TXT x75158
f. TXT x75159
f. TXT x75160
f. TXT x75161
f. TXT x75162
f. TXT x75163
f. TXT x75164
f. TXT x75165
f. TXT x75166
f. TXT x75167
f. TXT x75168
f. TXT x75169
f. TXT x75170
f. TXT x75171
f. TXT x75172
f. TXT x75173
f. TXT x75174
f. TXT x75175
f. TXT x75176
f. TXT x75177
f. TXT x75178
f. TXT x75179
f. TXT x75180
f. TXT x75181
f. TXT x75182
f. TXT x75183
f. TXT x75184
f. TXT x75185
f. TXT x75186
f. TXT x75187
f. TXT x75188
f. TXT x75189
f. TXT x75190
f. TXT x75191
f. TXT x75192
f. TXT x75193
f. TXT x75194
f. TXT x75195
f. TXT x75196
f. TXT x75197
f. TXT x75198
f. TXT x75199
$TTL 45
f. TXT x75201
f. TXT x75202
f. TXT x75203
f. TXT x75204
f. TXT x75205
f. TXT x75206
f. TXT x75207
f. TXT x75208
f. TXT x75209
f. TXT x75210
f. TXT x75211
f. TXT x75212
f. TXT x75213
f. TXT x75214
f. TXT x75215
f. TXT x75216
f. TXT x75217
f. TXT x75218
f. TXT x75219
f. TXT x75220
f. TXT x75221
f. TXT x75222
f. TXT x75223
f. TXT x75224
f. TXT x75225
f. TXT x75226
f. TXT x75227
f. TXT x75228
f. TXT x75229
f. TXT x75230
f. TXT x75231
f. TXT x75232
f. TXT x75233
f. TXT x75234
f. TXT x75235
f. TXT x75236
f. TXT x75237
f. TXT x75238
f. TXT x75239
f. TXT x75240
f. TXT x75241
f. TXT x75242
f. TXT x75243
f. TXT x75244
f. TXT x75245
f. TXT x75246
f. TXT x75247
f. TXT x75248
f. TXT x75249
f. TXT x75250
f. TXT x75251
f. TXT x75252
f. TXT x75253
f. TXT x75254
f. TXT x75255
f. TXT x75256
f. TXT x75257
f. TXT x75258
f. TXT x75259
f. TXT x75260
f. TXT x75261
f. TXT x75262
f. TXT x75263
x.c. NS -*y ax- yzb
f. TXT x75265
f. TXT x75266
f. TXT x75267
f. TXT x75268
f. TXT x75269
f. TXT x75270
f. TXT x75271
f. TXT x75272
f. TXT x75273
f. TXT x75274
f. TXT x75275
f. TXT x75276
f. TXT x75277
f. TXT x75278
f. TXT x75279
f. TXT x75280
f. TXT x75281
f. TXT x75282
f. TXT x75283
f. TXT x75284
f. TXT x75285
f. TXT x75286
f. TXT x75287
f. TXT x75288
f. TXT x75289
f. TXT x75290
f. TXT x75291
f. TXT x75292
f. TXT x75293
f. TXT x75294
f. TXT x75295
f. TXT x75296
f. TXT x75297
f. TXT x75298
f. TXT x75299
f. TXT x75300
f. TXT x75301
f. TXT x75302
f. TXT x75303
f. TXT x75304
f. TXT x75305
f. TXT x75306
f. TXT x75307
f. TXT x75308
f. TXT x75309
f. TXT x75310
f. TXT x75311
f. TXT x75312
f. TXT x75313
f. TXT x75314
f. TXT x75315
f. TXT x75316
f. TXT x75317
f. TXT x75318
f. TXT x75319
f. TXT x75320
f. TXT x75321
f. TXT x75322
f. TXT x75323
f. TXT x75324
f. TXT x75325
f. TXT x75326
f. TXT x75327
$ORIGIN --.xcc-.
f. TXT x75329
f. TXT x75330
f. TXT x75331
f. TXT x75332
f. TXT x75333
f. TXT x75334
f. TXT x75335
f. TXT x75336
f. TXT x75337
f. TXT x75338
f. TXT x75339
f. TXT x75340
f. TXT x75341
f. TXT x75342
f. TXT x75343
f. TXT x75344
f. TXT x75345
f. TXT x75346
f. TXT x75347
f. TXT x75348
f. TXT x75349
f. TXT x75350
f. TXT x75351
f. TXT x75352
f. TXT x75353
f. TXT x75354
f. TXT x75355
f. TXT x75356
f. TXT x75357
f. TXT x75358
f. TXT x75359
f. TXT x75360
f. TXT x75361
f. TXT x75362
f. TXT x75363
f. TXT x75364
f. TXT x75365
f. TXT x75366
f. TXT x75367
f. TXT x75368
f. TXT x75369
f. TXT x75370
f. TXT x75371
f. TXT x75372
f. TXT x75373
f. TXT x75374
f. TXT x75375
f. TXT x75376
f. TXT x75377
f. TXT x75378
f. TXT x75379
f. TXT x75380
f. TXT x75381
f. TXT x75382
f. TXT x75383
f. TXT x75384
f. TXT x75385
f. TXT x75386
f. TXT x75387
f. TXT x75388
f. TXT x75389
f. TXT x75390
f. TXT x75391
a NS z*yc
f. TXT x75393
f. TXT x75394
f. TXT x75395
f. TXT x75396
f. TXT x75397
f. TXT x75398
f. TXT x75399
f. TXT x75400
f. TXT x75401
f. TXT x75402
f. TXT x75403
f. TXT x75404
f. TXT x75405
f. TXT x75406
f. TXT x75407
f. TXT x75408
f. TXT x75409
f. TXT x75410
f. TXT x75411
f. TXT x75412
f. TXT x75413
f. TXT x75414
f. TXT x75415
f. TXT x75416
f. TXT x75417
f. TXT x75418
f. TXT x75419
f. TXT x75420
f. TXT x75421
f. TXT x75422
f. TXT x75423
f. TXT x75424
f. TXT x75425
f. TXT x75426
f. TXT x75427
f. TXT x75428
f. TXT x75429
f. TXT x75430
f. TXT x75431
f. TXT x75432
f. TXT x75433
f. TXT x75434
f. TXT x75435
f. TXT x75436
f. TXT x75437
f. TXT x75438
f. TXT x75439
f. TXT x75440
f. TXT x75441
f. TXT x75442
f. TXT x75443
f. TXT x75444
f. TXT x75445
f. TXT x75446
f. TXT x75447
f. TXT x75448
f. TXT x75449
f. TXT x75450
f. TXT x75451
f. TXT x75452
f. TXT x75453
f. TXT x75454
f. TXT x75455
@ NS ca
f. TXT x75457
f. TXT x75458
f. TXT x75459
f. TXT x75460
f. TXT x75461
f. TXT x75462
f. TXT x75463
f. TXT x75464
f. TXT x75465
f. TXT x75466
f. TXT x75467
f. TXT x75468
f. TXT x75469
f. TXT x75470
f. TXT x75471
f. TXT x75472
f. TXT x75473
f. TXT x75474
f. TXT x75475
f. TXT x75476
f. TXT x75477
f. TXT x75478
f. TXT x75479
f. TXT x75480
f. TXT x75481
f. TXT x75482
f. TXT x75483
f. TXT x75484
f. TXT x75485
f. TXT x75486
f. TXT x75487
f. TXT x75488
f. TXT x75489
f. TXT x75490
f. TXT x75491
f. TXT x75492
f. TXT x75493
f. TXT x75494
f. TXT x75495
f. TXT x75496
f. TXT x75497
f. TXT x75498
f. TXT x75499
f. TXT x75500
f. TXT x75501
f. TXT x75502
f. TXT x75503
f. TXT x75504
f. TXT x75505
f. TXT x75506
f. TXT x75507
f. TXT x75508
f. TXT x75509
f. TXT x75510
f. TXT x75511
f. TXT x75512
f. TXT x75513
f. TXT x75514
f. TXT x75515
f. TXT x75516
f. TXT x75517
f. TXT x75518
f. TXT x75519
 NS cxb*
f. TXT x75521
f. TXT x75522
f. TXT x75523
f. TXT x75524
f. TXT x75525
f. TXT x75526
f. TXT x75527
f. TXT x75528
f. TXT x75529
f. TXT x75530
f. TXT x75531
f. TXT x75532
f. TXT x75533
f. TXT x75534
f. TXT x75535
f. TXT x75536
f. TXT x75537
f. TXT x75538
f. TXT x75539
f. TXT x75540
f. TXT x75541
f. TXT x75542
f. TXT x75543
f. TXT x75544
f. TXT x75545
f. TXT x75546
f. TXT x75547
f. TXT x75548
f. TXT x75549
f. TXT x75550
f. TXT x75551
f. TXT x75552
f. TXT x75553
f. TXT x75554
f. TXT x75555
f. TXT x75556
f. TXT x75557
f. TXT x75558
f. TXT x75559
f. TXT x75560
f. TXT x75561
f. TXT x75562
f. TXT x75563
f. TXT x75564
f. TXT x75565
f. TXT x75566
f. TXT x75567
f. TXT x75568
f. TXT x75569
f. TXT x75570
f. TXT x75571
f. TXT x75572
f. TXT x75573
f. TXT x75574
f. TXT x75575
f. TXT x75576
f. TXT x75577
f. TXT x75578
f. TXT x75579
f. TXT x75580
f. TXT x75581
f. TXT x75582
f. TXT x75583
@ TXT y
f. TXT x75585
f. TXT x75586
f. TXT x75587
f. TXT x75588
f. TXT x75589
f. TXT x75590
f. TXT x75591
f. TXT x75592
f. TXT x75593
f. TXT x75594
f. TXT x75595
f. TXT x75596
f. TXT x75597
f. TXT x75598
f. TXT x75599
f. TXT x75600
f. TXT x75601
f. TXT x75602
f. TXT x75603
f. TXT x75604
f. TXT x75605
f. TXT x75606
f. TXT x75607
f. TXT x75608
f. TXT x75609
f. TXT x75610
f. TXT x75611
f. TXT x75612
f. TXT x75613
f. TXT x75614
f. TXT x75615
f. TXT x75616
f. TXT x75617
f. TXT x75618
f. TXT x75619
f. TXT x75620
f. TXT x75621
f. TXT x75622
f. TXT x75623
f. TXT x75624
f. TXT x75625
f. TXT x75626
f. TXT x75627
f. TXT x75628
f. TXT x75629
f. TXT x75630
f. TXT x75631
f. TXT x75632
f. TXT x75633
f. TXT x75634
f. TXT x75635
f. TXT x75636
f. TXT x75637
f. TXT x75638
f. TXT x75639
f. TXT x75640
f. TXT x75641
f. TXT x75642
f. TXT x75643
f. TXT x75644
f. TXT x75645
f. TXT x75646
f. TXT x75647
*. NS z0aa
f. TXT x75649
f. TXT x75650
f. TXT x75651
f. TXT x75652
f. TXT x75653
f. TXT x75654
f. TXT x75655
f. TXT x75656
f. TXT x75657
f. TXT x75658
f. TXT x75659
f. TXT x75660
f. TXT x75661
f. TXT x75662
f. TXT x75663
f. TXT x75664
f. TXT x75665
f. TXT x75666
f. TXT x75667
f. TXT x75668
f. TXT x75669
f. TXT x75670
f. TXT x75671
f. TXT x75672
f. TXT x75673
f. TXT x75674
f. TXT x75675
f. TXT x75676
f. TXT x75677
f. TXT x75678
f. TXT x75679
f. TXT x75680
f. TXT x75681
f. TXT x75682
f. TXT x75683
f. TXT x75684
f. TXT x75685
f. TXT x75686
f. TXT x75687
f. TXT x75688
f. TXT x75689
f. TXT x75690
f. TXT x75691
f. TXT x75692
f. TXT x75693
f. TXT x75694
f. TXT x75695
f. TXT x75696
f. TXT x75697
f. TXT x75698
f. TXT x75699
f. TXT x75700
f. TXT x75701
f. TXT x75702
f. TXT x75703
f. TXT x75704
f. TXT x75705
f. TXT x75706
f. TXT x75707
f. TXT x75708
f. TXT x75709
f. TXT x75710
f. TXT x75711
 TXT x-z
f. TXT x75713
f. TXT x75714
f. TXT x75715
f. TXT x75716
f. TXT x75717
f. TXT x75718
f. TXT x75719
f. TXT x75720
f. TXT x75721
f. TXT x75722
f. TXT x75723
f. TXT x75724
f. TXT x75725
f. TXT x75726
f. TXT x75727
f. TXT x75728
f. TXT x75729
f. TXT x75730
f. TXT x75731
f. TXT x75732
f. TXT x75733
f. TXT x75734
f. TXT x75735
f. TXT x75736
f. TXT x75737
f. TXT x75738
f. TXT x75739
f. TXT x75740
f. TXT x75741
f. TXT x75742
f. TXT x75743
f. TXT x75744
f. TXT x75745
f. TXT x75746
f. TXT x75747
f. TXT x75748
f. TXT x75749
f. TXT x75750
f. TXT x75751
f. TXT x75752
f. TXT x75753
f. TXT x75754
f. TXT x75755
f. TXT x75756
f. TXT x75757
f. TXT x75758
f. TXT x75759
f. TXT x75760
f. TXT x75761
f. TXT x75762
f. TXT x75763
f. TXT x75764
f. TXT x75765
f. TXT x75766
f. TXT x75767
f. TXT x75768
f. TXT x75769
f. TXT x75770
f. TXT x75771
f. TXT x75772
f. TXT x75773
f. TXT x75774
f. TXT x75775
b*c A -xc bx -
f. TXT x75777
f. TXT x75778
f. TXT x75779
f. TXT x75780
f. TXT x75781
f. TXT x75782
f. TXT x75783
f. TXT x75784
f. TXT x75785
f. TXT x75786
f. TXT x75787
f. TXT x75788
f. TXT x75789
f. TXT x75790
f. TXT x75791
f. TXT x75792
f. TXT x75793
f. TXT x75794
f. TXT x75795
f. TXT x75796
f. TXT x75797
f. TXT x75798
f. TXT x75799
f. TXT x75800
f. TXT x75801
f. TXT x75802
f. TXT x75803
f. TXT x75804
f. TXT x75805
f. TXT x75806
f. TXT x75807
f. TXT x75808
f. TXT x75809
f. TXT x75810
f. TXT x75811
f. TXT x75812
f. TXT x75813
f. TXT x75814
f. TXT x75815
f. TXT x75816
f. TXT x75817
f. TXT x75818
f. TXT x75819
f. TXT x75820
f. TXT x75821
f. TXT x75822
f. TXT x75823
f. TXT x75824
f. TXT x75825
f. TXT x75826
f. TXT x75827
f. TXT x75828
f. TXT x75829
f. TXT x75830
f. TXT x75831
f. TXT x75832
f. TXT x75833
f. TXT x75834
f. TXT x75835
f. TXT x75836
f. TXT x75837
f. TXT x75838
f. TXT x75839
czcb NS cc*b 0zy zxa0
f. TXT x75841
f. TXT x75842
f. TXT x75843
f. TXT x75844
f. TXT x75845
f. TXT x75846
f. TXT x75847
f. TXT x75848
f. TXT x75849
f. TXT x75850
f. TXT x75851
f. TXT x75852
f. TXT x75853
f. TXT x75854
f. TXT x75855
f. TXT x75856
f. TXT x75857
f. TXT x75858
f. TXT x75859
f. TXT x75860
f. TXT x75861
f. TXT x75862
f. TXT x75863
f. TXT x75864
f. TXT x75865
f. TXT x75866
f. TXT x75867
f. TXT x75868
f. TXT x75869
f. TXT x75870
f. TXT x75871
f. TXT x75872
f. TXT x75873
f. TXT x75874
f. TXT x75875
f. TXT x75876
f. TXT x75877
f. TXT x75878
f. TXT x75879
f. TXT x75880
f. TXT x75881
f. TXT x75882
f. TXT x75883
f. TXT x75884
f. TXT x75885
f. TXT x75886
f. TXT x75887
f. TXT x75888
f. TXT x75889
f. TXT x75890
f. TXT x75891
f. TXT x75892
f. TXT x75893
f. TXT x75894
f. TXT x75895
f. TXT x75896
f. TXT x75897
f. TXT x75898
f. TXT x75899
f. TXT x75900
f. TXT x75901
f. TXT x75902
f. TXT x75903
; *-b
f. TXT x75905
f. TXT x75906
f. TXT x75907
f. TXT x75908
f. TXT x75909
f. TXT x75910
f. TXT x75911
f. TXT x75912
f. TXT x75913
f. TXT x75914
f. TXT x75915
f. TXT x75916
f. TXT x75917
f. TXT x75918
f. TXT x75919
f. TXT x75920
f. TXT x75921
f. TXT x75922
f. TXT x75923
f. TXT x75924
f. TXT x75925
f. TXT x75926
f. TXT x75927
f. TXT x75928
f. TXT x75929
f. TXT x75930
f. TXT x75931
f. TXT x75932
f. TXT x75933
f. TXT x75934
f. TXT x75935
f. TXT x75936
f. TXT x75937
f. TXT x75938
f. TXT x75939
f. TXT x75940
f. TXT x75941
f. TXT x75942
f. TXT x75943
f. TXT x75944
f. TXT x75945
f. TXT x75946
f. TXT x75947
f. TXT x75948
f. TXT x75949
f. TXT x75950
f. TXT x75951
f. TXT x75952
f. TXT x75953
f. TXT x75954
f. TXT x75955
f. TXT x75956
f. TXT x75957
f. TXT x75958
f. TXT x75959
f. TXT x75960
f. TXT x75961
f. TXT x75962
f. TXT x75963
f. TXT x75964
f. TXT x75965
f. TXT x75966
f. TXT x75967
 A x
f. TXT x75969
f. TXT x75970
f. TXT x75971
f. TXT x75972
f. TXT x75973
f. TXT x75974
f. TXT x75975
f. TXT x75976
f. TXT x75977
f. TXT x75978
f. TXT x75979
f. TXT x75980
f. TXT x75981
f. TXT x75982
f. TXT x75983
f. TXT x75984
f. TXT x75985
f. TXT x75986
f. TXT x75987
f. TXT x75988
f. TXT x75989
f. TXT x75990
f. TXT x75991
f. TXT x75992
f. TXT x75993
f. TXT x75994
f. TXT x75995
f. TXT x75996
f. TXT x75997
f. TXT x75998
f. TXT x75999
f. TXT x76000
f. TXT x76001
f. TXT x76002
f. TXT x76003
f. TXT x76004
f. TXT x76005
f. TXT x76006
f. TXT x76007
f. TXT x76008
f. TXT x76009
f. TXT x76010
f. TXT x76011
f. TXT x76012
f. TXT x76013
f. TXT x76014
f. TXT x76015
f. TXT x76016
f. TXT x76017
f. TXT x76018
f. TXT x76019
f. TXT x76020
f. TXT x76021
f. TXT x76022
f. TXT x76023
f. TXT x76024
f. TXT x76025
f. TXT x76026
f. TXT x76027
f. TXT x76028
f. TXT x76029
f. TXT x76030
f. TXT x76031
$TTL 258297
f. TXT x76033
f. TXT x76034
f. TXT x76035
f. TXT x76036
f. TXT x76037
f. TXT x76038
f. TXT x76039
f. TXT x76040
f. TXT x76041
f. TXT x76042
f. TXT x76043
f. TXT x76044
f. TXT x76045
f. TXT x76046
f. TXT x76047
f. TXT x76048
f. TXT x76049
f. TXT x76050
f. TXT x76051
f. TXT x76052
f. TXT x76053
f. TXT x76054
f. TXT x76055
f. TXT x76056
f. TXT x76057
f. TXT x76058
f. TXT x76059
f. TXT x76060
f. TXT x76061
f. TXT x76062
f. TXT x76063
f. TXT x76064
f. TXT x76065
f. TXT x76066
f. TXT x76067
f. TXT x76068
f. TXT x76069
f. TXT x76070
f. TXT x76071
f. TXT x76072
f. TXT x76073
f. TXT x76074
f. TXT x76075
f. TXT x76076
f. TXT x76077
f. TXT x76078
f. TXT x76079
f. TXT x76080
f. TXT x76081
f. TXT x76082
f. TXT x76083
f. TXT x76084
f. TXT x76085
f. TXT x76086
f. TXT x76087
f. TXT x76088
f. TXT x76089
f. TXT x76090
f. TXT x76091
f. TXT x76092
f. TXT x76093
f. TXT x76094
f. TXT x76095
0y.-bzy. A a0*a a xz0
f. TXT x76097
f. TXT x76098
f. TXT x76099
f. TXT x76100
f. TXT x76101
f. TXT x76102
f. TXT x76103
f. TXT x76104
f. TXT x76105
f. TXT x76106
f. TXT x76107
f. TXT x76108
f. TXT x76109
f. TXT x76110
f. TXT x76111
f. TXT x76112
f. TXT x76113
f. TXT x76114
f. TXT x76115
f. TXT x76116
f. TXT x76117
f. TXT x76118
f. TXT x76119
f. TXT x76120
f. TXT x76121
f. TXT x76122
f. TXT x76123
f. TXT x76124
f. TXT x76125
f. TXT x76126
f. TXT x76127
f. TXT x76128
f. TXT x76129
f. TXT x76130
f. TXT x76131
f. TXT x76132
f. TXT x76133
f. TXT x76134
f. TXT x76135
f. TXT x76136
f. TXT x76137
f. TXT x76138
f. TXT x76139
f. TXT x76140
f. TXT x76141
f. TXT x76142
f. TXT x76143
f. TXT x76144
f. TXT x76145
f. TXT x76146
f. TXT x76147
f. TXT x76148
f. TXT x76149
f. TXT x76150
f. TXT x76151
f. TXT x76152
f. TXT x76153
f. TXT x76154
f. TXT x76155
f. TXT x76156
f. TXT x76157
f. TXT x76158
f. TXT x76159
 A --y abzy
f. TXT x76161
f. TXT x76162
f. TXT x76163
f. TXT x76164
f. TXT x76165
f. TXT x76166
f. TXT x76167
f. TXT x76168
f. TXT x76169
f. TXT x76170
f. TXT x76171
f. TXT x76172
f. TXT x76173
f. TXT x76174
f. TXT x76175
f. TXT x76176
f. TXT x76177
f. TXT x76178
f. TXT x76179
f. TXT x76180
f. TXT x76181
f. TXT x76182
f. TXT x76183
f. TXT x76184
f. TXT x76185
f. TXT x76186
f. TXT x76187
f. TXT x76188
f. TXT x76189
f. TXT x76190
f. TXT x76191
f. TXT x76192
f. TXT x76193
f. TXT x76194
f. TXT x76195
f. TXT x76196
f. TXT x76197
f. TXT x76198
f. TXT x76199
f. TXT x76200
f. TXT x76201
f. TXT x76202
f. TXT x76203
f. TXT x76204
f. TXT x76205
f. TXT x76206
f. TXT x76207
f. TXT x76208
f. TXT x76209
f. TXT x76210
f. TXT x76211
f. TXT x76212
f. TXT x76213
f. TXT x76214
f. TXT x76215
f. TXT x76216
f. TXT x76217
f. TXT x76218
f. TXT x76219
f. TXT x76220
f. TXT x76221
f. TXT x76222
f. TXT x76223
$TTL 162571379
f. TXT x76225
f. TXT x76226
f. TXT x76227
f. TXT x76228
f. TXT x76229
f. TXT x76230
f. TXT x76231
f. TXT x76232
f. TXT x76233
f. TXT x76234
f. TXT x76235
f. TXT x76236
f. TXT x76237
f. TXT x76238
f. TXT x76239
f. TXT x76240
f. TXT x76241
f. TXT x76242
f. TXT x76243
f. TXT x76244
f. TXT x76245
f. TXT x76246
f. TXT x76247
f. TXT x76248
f. TXT x76249
f. TXT x76250
f. TXT x76251
f. TXT x76252
f. TXT x76253
f. TXT x76254
f. TXT x76255
f. TXT x76256
f. TXT x76257
f. TXT x76258
f. TXT x76259
f. TXT x76260
f. TXT x76261
f. TXT x76262
f. TXT x76263
f. TXT x76264
f. TXT x76265
f. TXT x76266
f. TXT x76267
f. TXT x76268
f. TXT x76269
f. TXT x76270
f. TXT x76271
f. TXT x76272
f. TXT x76273
f. TXT x76274
f. TXT x76275
f. TXT x76276
f. TXT x76277
f. TXT x76278
f. TXT x76279
f. TXT x76280
f. TXT x76281
f. TXT x76282
f. TXT x76283
f. TXT x76284
f. TXT x76285
f. TXT x76286
f. TXT x76287
***. A c*z* c-zz yy-a
f. TXT x76289
f. TXT x76290
f. TXT x76291
f. TXT x76292
f. TXT x76293
f. TXT x76294
f. TXT x76295
f. TXT x76296
f. TXT x76297
f. TXT x76298
f. TXT x76299
f. TXT x76300
f. TXT x76301
f. TXT x76302
f. TXT x76303
f. TXT x76304
f. TXT x76305
f. TXT x76306
f. TXT x76307
f. TXT x76308
f. TXT x76309
f. TXT x76310
f. TXT x76311
f. TXT x76312
f. TXT x76313
f. TXT x76314
f. TXT x76315
f. TXT x76316
f. TXT x76317
f. TXT x76318
f. TXT x76319
f. TXT x76320
f. TXT x76321
f. TXT x76322
f. TXT x76323
f. TXT x76324
f. TXT x76325
f. TXT x76326
f. TXT x76327
f. TXT x76328
f. TXT x76329
f. TXT x76330
f. TXT x76331
f. TXT x76332
f. TXT x76333
f. TXT x76334
f. TXT x76335
f. TXT x76336
f. TXT x76337
f. TXT x76338
f. TXT x76339
f. TXT x76340
f. TXT x76341
f. TXT x76342
f. TXT x76343
f. TXT x76344
f. TXT x76345
f. TXT x76346
f. TXT x76347
f. TXT x76348
f. TXT x76349
f. TXT x76350
f. TXT x76351
$ORIGIN yx-.
f. TXT x76353
f. TXT x76354
f. TXT x76355
f. TXT x76356
f. TXT x76357
f. TXT x76358
f. TXT x76359
f. TXT x76360
f. TXT x76361
f. TXT x76362
f. TXT x76363
f. TXT x76364
f. TXT x76365
f. TXT x76366
f. TXT x76367
f. TXT x76368
f. TXT x76369
f. TXT x76370
f. TXT x76371
f. TXT x76372
f. TXT x76373
f. TXT x76374
f. TXT x76375
f. TXT x76376
f. TXT x76377
f. TXT x76378
f. TXT x76379
f. TXT x76380
f. TXT x76381
f. TXT x76382
f. TXT x76383
f. TXT x76384
f. TXT x76385
f. TXT x76386
f. TXT x76387
f. TXT x76388
f. TXT x76389
f. TXT x76390
f. TXT x76391
f. TXT x76392
f. TXT x76393
f. TXT x76394
f. TXT x76395
f. TXT x76396
f. TXT x76397
f. TXT x76398
f. TXT x76399
f. TXT x76400
f. TXT x76401
f. TXT x76402
f. TXT x76403
f. TXT x76404
f. TXT x76405
f. TXT x76406
f. TXT x76407
f. TXT x76408
f. TXT x76409
f. TXT x76410
f. TXT x76411
f. TXT x76412
f. TXT x76413
f. TXT x76414
f. TXT x76415
bxb- NS x xax
f. TXT x76417
f. TXT x76418
f. TXT x76419
f. TXT x76420
f. TXT x76421
f. TXT x76422
f. TXT x76423
f. TXT x76424
f. TXT x76425
f. TXT x76426
f. TXT x76427
f. TXT x76428
f. TXT x76429
f. TXT x76430
f. TXT x76431
f. TXT x76432
f. TXT x76433
f. TXT x76434
f. TXT x76435
f. TXT x76436
f. TXT x76437
f. TXT x76438
f. TXT x76439
f. TXT x76440
f. TXT x76441
f. TXT x76442
f. TXT x76443
f. TXT x76444
f. TXT x76445
f. TXT x76446
f. TXT x76447
f. TXT x76448
f. TXT x76449
f. TXT x76450
f. TXT x76451
f. TXT x76452
f. TXT x76453
f. TXT x76454
f. TXT x76455
f. TXT x76456
f. TXT x76457
f. TXT x76458
f. TXT x76459
f. TXT x76460
f. TXT x76461
f. TXT x76462
f. TXT x76463
f. TXT x76464
f. TXT x76465
f. TXT x76466
f. TXT x76467
f. TXT x76468
f. TXT x76469
f. TXT x76470
f. TXT x76471
f. TXT x76472
f. TXT x76473
f. TXT x76474
f. TXT x76475
f. TXT x76476
f. TXT x76477
f. TXT x76478
f. TXT x76479
@ NS -0
f. TXT x76481
f. TXT x76482
f. TXT x76483
f. TXT x76484
f. TXT x76485
f. TXT x76486
f. TXT x76487
f. TXT x76488
f. TXT x76489
f. TXT x76490
f. TXT x76491
f. TXT x76492
f. TXT x76493
f. TXT x76494
f. TXT x76495
f. TXT x76496
f. TXT x76497
f. TXT x76498
f. TXT x76499
f. TXT x76500
f. TXT x76501
f. TXT x76502
f. TXT x76503
f. TXT x76504
f. TXT x76505
f. TXT x76506
f. TXT x76507
f. TXT x76508
f. TXT x76509
f. TXT x76510
f. TXT x76511
f. TXT x76512
f. TXT x76513
f. TXT x76514
f. TXT x76515
f. TXT x76516
f. TXT x76517
f. TXT x76518
f. TXT x76519
f. TXT x76520
f. TXT x76521
f. TXT x76522
f. TXT x76523
f. TXT x76524
f. TXT x76525
f. TXT x76526
f. TXT x76527
f. TXT x76528
f. TXT x76529
f. TXT x76530
f. TXT x76531
f. TXT x76532
f. TXT x76533
f. TXT x76534
f. TXT x76535
f. TXT x76536
f. TXT x76537
f. TXT x76538
f. TXT x76539
f. TXT x76540
f. TXT x76541
f. TXT x76542
f. TXT x76543
z NS ay-b -b-x -c*
f. TXT x76545
f. TXT x76546
f. TXT x76547
f. TXT x76548
f. TXT x76549
f. TXT x76550
f. TXT x76551
f. TXT x76552
f. TXT x76553
f. TXT x76554
f. TXT x76555
f. TXT x76556
f. TXT x76557
f. TXT x76558
f. TXT x76559
f. TXT x76560
f. TXT x76561
f. TXT x76562
f. TXT x76563
f. TXT x76564
f. TXT x76565
f. TXT x76566
f. TXT x76567
f. TXT x76568
f. TXT x76569
f. TXT x76570
f. TXT x76571
f. TXT x76572
f. TXT x76573
f. TXT x76574
f. TXT x76575
f. TXT x76576
f. TXT x76577
f. TXT x76578
f. TXT x76579
f. TXT x76580
f. TXT x76581
f. TXT x76582
f. TXT x76583
f. TXT x76584
f. TXT x76585
f. TXT x76586
f. TXT x76587
f. TXT x76588
f. TXT x76589
f. TXT x76590
f. TXT x76591
f. TXT x76592
f. TXT x76593
f. TXT x76594
f. TXT x76595
f. TXT x76596
f. TXT x76597
f. TXT x76598
f. TXT x76599
f. TXT x76600
f. TXT x76601
f. TXT x76602
f. TXT x76603
f. TXT x76604
f. TXT x76605
f. TXT x76606
f. TXT x76607
@ A *a*x c
f. TXT x76609
f. TXT x76610
f. TXT x76611
f. TXT x76612
f. TXT x76613
f. TXT x76614
f. TXT x76615
f. TXT x76616
f. TXT x76617
f. TXT x76618
f. TXT x76619
f. TXT x76620
f. TXT x76621
f. TXT x76622
f. TXT x76623
f. TXT x76624
f. TXT x76625
f. TXT x76626
f. TXT x76627
f. TXT x76628
f. TXT x76629
f. TXT x76630
f. TXT x76631
f. TXT x76632
f. TXT x76633
f. TXT x76634
f. TXT x76635
f. TXT x76636
f. TXT x76637
f. TXT x76638
f. TXT x76639
f. TXT x76640
f. TXT x76641
f. TXT x76642
f. TXT x76643
f. TXT x76644
f. TXT x76645
f. TXT x76646
f. TXT x76647
f. TXT x76648
f. TXT x76649
f. TXT x76650
f. TXT x76651
f. TXT x76652
f. TXT x76653
f. TXT x76654
f. TXT x76655
f. TXT x76656
f. TXT x76657
f. TXT x76658
f. TXT x76659
f. TXT x76660
f. TXT x76661
f. TXT x76662
f. TXT x76663
f. TXT x76664
f. TXT x76665
f. TXT x76666
f. TXT x76667
f. TXT x76668
f. TXT x76669
f. TXT x76670
f. TXT x76671
0z A yby x0*x -x
f. TXT x76673
f. TXT x76674
f. TXT x76675
f. TXT x76676
f. TXT x76677
f. TXT x76678
f. TXT x76679
f. TXT x76680
f. TXT x76681
f. TXT x76682
f. TXT x76683
f. TXT x76684
f. TXT x76685
f. TXT x76686
f. TXT x76687
f. TXT x76688
f. TXT x76689
f. TXT x76690
f. TXT x76691
f. TXT x76692
f. TXT x76693
f. TXT x76694
f. TXT x76695
f. TXT x76696
f. TXT x76697
f. TXT x76698
f. TXT x76699
f. TXT x76700
f. TXT x76701
f. TXT x76702
f. TXT x76703
f. TXT x76704
f. TXT x76705
f. TXT x76706
f. TXT x76707
f. TXT x76708
f. TXT x76709
f. TXT x76710
f. TXT x76711
f. TXT x76712
f. TXT x76713
f. TXT x76714
f. TXT x76715
f. TXT x76716
f. TXT x76717
f. TXT x76718
f. TXT x76719
f. TXT x76720
f. TXT x76721
f. TXT x76722
f. TXT x76723
f. TXT x76724
f. TXT x76725
f. TXT x76726
f. TXT x76727
f. TXT x76728
f. TXT x76729
f. TXT x76730
f. TXT x76731
f. TXT x76732
f. TXT x76733
f. TXT x76734
f. TXT x76735
@ A a-x
f. TXT x76737
f. TXT x76738
f. TXT x76739
f. TXT x76740
f. TXT x76741
f. TXT x76742
f. TXT x76743
f. TXT x76744
f. TXT x76745
f. TXT x76746
f. TXT x76747
f. TXT x76748
f. TXT x76749
f. TXT x76750
f. TXT x76751
f. TXT x76752
f. TXT x76753
f. TXT x76754
f. TXT x76755
f. TXT x76756
f. TXT x76757
f. TXT x76758
f. TXT x76759
f. TXT x76760
f. TXT x76761
f. TXT x76762
f. TXT x76763
f. TXT x76764
f. TXT x76765
f. TXT x76766
f. TXT x76767
f. TXT x76768
f. TXT x76769
f. TXT x76770
f. TXT x76771
f. TXT x76772
f. TXT x76773
f. TXT x76774
f. TXT x76775
f. TXT x76776
f. TXT x76777
f. TXT x76778
f. TXT x76779
f. TXT x76780
f. TXT x76781
f. TXT x76782
f. TXT x76783
f. TXT x76784
f. TXT x76785
f. TXT x76786
f. TXT x76787
f. TXT x76788
f. TXT x76789
f. TXT x76790
f. TXT x76791
f. TXT x76792
f. TXT x76793
f. TXT x76794
f. TXT x76795
f. TXT x76796
f. TXT x76797
f. TXT x76798
f. TXT x76799
z-.y. A c*
f. TXT x76801
f. TXT x76802
f. TXT x76803
f. TXT x76804
f. TXT x76805
f. TXT x76806
f. TXT x76807
f. TXT x76808
f. TXT x76809
f. TXT x76810
f. TXT x76811
f. TXT x76812
f. TXT x76813
f. TXT x76814
f. TXT x76815
f. TXT x76816
f. TXT x76817
f. TXT x76818
f. TXT x76819
f. TXT x76820
f. TXT x76821
f. TXT x76822
f. TXT x76823
f. TXT x76824
f. TXT x76825
f. TXT x76826
f. TXT x76827
f. TXT x76828
f. TXT x76829
f. TXT x76830
f. TXT x76831
f. TXT x76832
f. TXT x76833
f. TXT x76834
f. TXT x76835
f. TXT x76836
f. TXT x76837
f. TXT x76838
f. TXT x76839
f. TXT x76840
f. TXT x76841
f. TXT x76842
f. TXT x76843
f. TXT x76844
f. TXT x76845
f. TXT x76846
f. TXT x76847
f. TXT x76848
f. TXT x76849
f. TXT x76850
f. TXT x76851
f. TXT x76852
f. TXT x76853
f. TXT x76854
f. TXT x76855
f. TXT x76856
f. TXT x76857
f. TXT x76858
f. TXT x76859
f. TXT x76860
f. TXT x76861
f. TXT x76862
f. TXT x76863
*x-y. TXT yccy x**-
f. TXT x76865
f. TXT x76866
f. TXT x76867
f. TXT x76868
f. TXT x76869
f. TXT x76870
f. TXT x76871
f. TXT x76872
f. TXT x76873
f. TXT x76874
f. TXT x76875
f. TXT x76876
f. TXT x76877
f. TXT x76878
f. TXT x76879
f. TXT x76880
f. TXT x76881
f. TXT x76882
f. TXT x76883
f. TXT x76884
f. TXT x76885
f. TXT x76886
f. TXT x76887
f. TXT x76888
f. TXT x76889
f. TXT x76890
f. TXT x76891
f. TXT x76892
f. TXT x76893
f. TXT x76894
f. TXT x76895
f. TXT x76896
f. TXT x76897
f. TXT x76898
f. TXT x76899
f. TXT x76900
f. TXT x76901
f. TXT x76902
f. TXT x76903
f. TXT x76904
f. TXT x76905
f. TXT x76906
f. TXT x76907
f. TXT x76908
f. TXT x76909
f. TXT x76910
f. TXT x76911
f. TXT x76912
f. TXT x76913
f. TXT x76914
f. TXT x76915
f. TXT x76916
f. TXT x76917
f. TXT x76918
f. TXT x76919
f. TXT x76920
f. TXT x76921
f. TXT x76922
f. TXT x76923
f. TXT x76924
f. TXT x76925
f. TXT x76926
f. TXT x76927
 A z*
f. TXT x76929
f. TXT x76930
f. TXT x76931
f. TXT x76932
f. TXT x76933
f. TXT x76934
f. TXT x76935
f. TXT x76936
f. TXT x76937
f. TXT x76938
f. TXT x76939
f. TXT x76940
f. TXT x76941
f. TXT x76942
f. TXT x76943
f. TXT x76944
f. TXT x76945
f. TXT x76946
f. TXT x76947
f. TXT x76948
f. TXT x76949
f. TXT x76950
f. TXT x76951
f. TXT x76952
f. TXT x76953
f. TXT x76954
f. TXT x76955
f. TXT x76956
f. TXT x76957
f. TXT x76958
f. TXT x76959
f. TXT x76960
f. TXT x76961
f. TXT x76962
f. TXT x76963
f. TXT x76964
f. TXT x76965
f. TXT x76966
f. TXT x76967
f. TXT x76968
f. TXT x76969
f. TXT x76970
f. TXT x76971
f. TXT x76972
f. TXT x76973
f. TXT x76974
f. TXT x76975
f. TXT x76976
f. TXT x76977
f. TXT x76978
f. TXT x76979
f. TXT x76980
f. TXT x76981
f. TXT x76982
f. TXT x76983
f. TXT x76984
f. TXT x76985
f. TXT x76986
f. TXT x76987
f. TXT x76988
f. TXT x76989
f. TXT x76990
f. TXT x76991
; by-z
f. TXT x76993
f. TXT x76994
f. TXT x76995
f. TXT x76996
f. TXT x76997
f. TXT x76998
f. TXT x76999
f. TXT x77000
f. TXT x77001
f. TXT x77002
f. TXT x77003
f. TXT x77004
f. TXT x77005
f. TXT x77006
f. TXT x77007
f. TXT x77008
f. TXT x77009
f. TXT x77010
f. TXT x77011
f. TXT x77012
f. TXT x77013
f. TXT x77014
f. TXT x77015
f. TXT x77016
f. TXT x77017
f. TXT x77018
f. TXT x77019
f. TXT x77020
f. TXT x77021
f. TXT x77022
f. TXT x77023
f. TXT x77024
f. TXT x77025
f. TXT x77026
f. TXT x77027
f. TXT x77028
f. TXT x77029
f. TXT x77030
f. TXT x77031
f. TXT x77032
f. TXT x77033
f. TXT x77034
f. TXT x77035
f. TXT x77036
f. TXT x77037
f. TXT x77038
f. TXT x77039
f. TXT x77040
f. TXT x77041
f. TXT x77042
f. TXT x77043
f. TXT x77044
f. TXT x77045
f. TXT x77046
f. TXT x77047
f. TXT x77048
f. TXT x77049
f. TXT x77050
f. TXT x77051
f. TXT x77052
f. TXT x77053
f. TXT x77054
f. TXT x77055
 NS --
f. TXT x77057
f. TXT x77058
f. TXT x77059
f. TXT x77060
f. TXT x77061
f. TXT x77062
f. TXT x77063
f. TXT x77064
f. TXT x77065
f. TXT x77066
f. TXT x77067
f. TXT x77068
f. TXT x77069
f. TXT x77070
f. TXT x77071
f. TXT x77072
f. TXT x77073
f. TXT x77074
f. TXT x77075
f. TXT x77076
f. TXT x77077
f. TXT x77078
f. TXT x77079
f. TXT x77080
f. TXT x77081
f. TXT x77082
f. TXT x77083
f. TXT x77084
f. TXT x77085
f. TXT x77086
f. TXT x77087
f. TXT x77088
f. TXT x77089
f. TXT x77090
f. TXT x77091
f. TXT x77092
f. TXT x77093
f. TXT x77094
f. TXT x77095
f. TXT x77096
f. TXT x77097
f. TXT x77098
f. TXT x77099
f. TXT x77100
f. TXT x77101
f. TXT x77102
f. TXT x77103
f. TXT x77104
f. TXT x77105
f. TXT x77106
f. TXT x77107
f. TXT x77108
f. TXT x77109
f. TXT x77110
f. TXT x77111
f. TXT x77112
f. TXT x77113
f. TXT x77114
f. TXT x77115
f. TXT x77116
f. TXT x77117
f. TXT x77118
f. TXT x77119

f. TXT x77121
f. TXT x77122
f. TXT x77123
f. TXT x77124
f. TXT x77125
f. TXT x77126
f. TXT x77127
f. TXT x77128
f. TXT x77129
f. TXT x77130
f. TXT x77131
f. TXT x77132
f. TXT x77133
f. TXT x77134
f. TXT x77135
f. TXT x77136
f. TXT x77137
f. TXT x77138
f. TXT x77139
f. TXT x77140
f. TXT x77141
f. TXT x77142
f. TXT x77143
f. TXT x77144
f. TXT x77145
f. TXT x77146
f. TXT x77147
f. TXT x77148
f. TXT x77149
f. TXT x77150
f. TXT x77151
f. TXT x77152
f. TXT x77153
f. TXT x77154
f. TXT x77155
f. TXT x77156
f. TXT x77157
f. TXT x77158
f. TXT x77159
f. TXT x77160
f. TXT x77161
f. TXT x77162
f. TXT x77163
f. TXT x77164
f. TXT x77165
f. TXT x77166
f. TXT x77167
f. TXT x77168
f. TXT x77169
f. TXT x77170
f. TXT x77171
f. TXT x77172
f. TXT x77173
f. TXT x77174
f. TXT x77175
f. TXT x77176
f. TXT x77177
f. TXT x77178
f. TXT x77179
f. TXT x77180
f. TXT x77181
f. TXT x77182
f. TXT x77183
00z* A *yax
f. TXT x77185
f. TXT x77186
f. TXT x77187
f. TXT x77188
f. TXT x77189
f. TXT x77190
f. TXT x77191
f. TXT x77192
f. TXT x77193
f. TXT x77194
f. TXT x77195
f. TXT x77196
f. TXT x77197
f. TXT x77198
f. TXT x77199
f. TXT x77200
f. TXT x77201
f. TXT x77202
f. TXT x77203
f. TXT x77204
f. TXT x77205
f. TXT x77206
f. TXT x77207
f. TXT x77208
f. TXT x77209
f. TXT x77210
f. TXT x77211
f. TXT x77212
f. TXT x77213
f. TXT x77214
f. TXT x77215
f. TXT x77216
f. TXT x77217
f. TXT x77218
f. TXT x77219
f. TXT x77220
f. TXT x77221
f. TXT x77222
f. TXT x77223
f. TXT x77224
f. TXT x77225
f. TXT x77226
f. TXT x77227
f. TXT x77228
f. TXT x77229
f. TXT x77230
f. TXT x77231
f. TXT x77232
f. TXT x77233
f. TXT x77234
f. TXT x77235
f. TXT x77236
f. TXT x77237
f. TXT x77238
f. TXT x77239
f. TXT x77240
f. TXT x77241
f. TXT x77242
f. TXT x77243
f. TXT x77244
f. TXT x77245
f. TXT x77246
f. TXT x77247
ybc NS bza *0ab
f. TXT x77249
f. TXT x77250
f. TXT x77251
f. TXT x77252
f. TXT x77253
f. TXT x77254
f. TXT x77255
f. TXT x77256
f. TXT x77257
f. TXT x77258
f. TXT x77259
f. TXT x77260
f. TXT x77261
f. TXT x77262
f. TXT x77263
f. TXT x77264
f. TXT x77265
f. TXT x77266
f. TXT x77267
f. TXT x77268
f. TXT x77269
f. TXT x77270
f. TXT x77271
f. TXT x77272
f. TXT x77273
f. TXT x77274
f. TXT x77275
f. TXT x77276
f. TXT x77277
f. TXT x77278
f. TXT x77279
f. TXT x77280
f. TXT x77281
f. TXT x77282
f. TXT x77283
f. TXT x77284
f. TXT x77285
f. TXT x77286
f. TXT x77287
f. TXT x77288
f. TXT x77289
f. TXT x77290
f. TXT x77291
f. TXT x77292
f. TXT x77293
f. TXT x77294
f. TXT x77295
f. TXT x77296
f. TXT x77297
f. TXT x77298
f. TXT x77299
f. TXT x77300
f. TXT x77301
f. TXT x77302
f. TXT x77303
f. TXT x77304
f. TXT x77305
f. TXT x77306
f. TXT x77307
f. TXT x77308
f. TXT x77309
f. TXT x77310
f. TXT x77311
cxb TXT a-0b
f. TXT x77313
f. TXT x77314
f. TXT x77315
f. TXT x77316
f. TXT x77317
f. TXT x77318
f. TXT x77319
f. TXT x77320
f. TXT x77321
f. TXT x77322
f. TXT x77323
f. TXT x77324
f. TXT x77325
f. TXT x77326
f. TXT x77327
f. TXT x77328
f. TXT x77329
f. TXT x77330
f. TXT x77331
f. TXT x77332
f. TXT x77333
f. TXT x77334
f. TXT x77335
f. TXT x77336
f. TXT x77337
f. TXT x77338
f. TXT x77339
f. TXT x77340
f. TXT x77341
f. TXT x77342
f. TXT x77343
f. TXT x77344
f. TXT x77345
f. TXT x77346
f. TXT x77347
f. TXT x77348
f. TXT x77349
f. TXT x77350
f. TXT x77351
f. TXT x77352
f. TXT x77353
f. TXT x77354
f. TXT x77355
f. TXT x77356
f. TXT x77357
f. TXT x77358
f. TXT x77359
f. TXT x77360
f. TXT x77361
f. TXT x77362
f. TXT x77363
f. TXT x77364
f. TXT x77365
f. TXT x77366
f. TXT x77367
f. TXT x77368
f. TXT x77369
f. TXT x77370
f. TXT x77371
f. TXT x77372
f. TXT x77373
f. TXT x77374
f. TXT x77375
$ORIGIN x0.c-c*.
f. TXT x77377
f. TXT x77378
f. TXT x77379
f. TXT x77380
f. TXT x77381
f. TXT x77382
f. TXT x77383
f. TXT x77384
f. TXT x77385
f. TXT x77386
f. TXT x77387
f. TXT x77388
f. TXT x77389
f. TXT x77390
f. TXT x77391
f. TXT x77392
f. TXT x77393
f. TXT x77394
f. TXT x77395
f. TXT x77396
f. TXT x77397
f. TXT x77398
f. TXT x77399
f. TXT x77400
f. TXT x77401
f. TXT x77402
f. TXT x77403
f. TXT x77404
f. TXT x77405
f. TXT x77406
f. TXT x77407
f. TXT x77408
f. TXT x77409
f. TXT x77410
f. TXT x77411
f. TXT x77412
f. TXT x77413
f. TXT x77414
f. TXT x77415
f. TXT x77416
f. TXT x77417
f. TXT x77418
f. TXT x77419
f. TXT x77420
f. TXT x77421
f. TXT x77422
f. TXT x77423
f. TXT x77424
f. TXT x77425
f. TXT x77426
f. TXT x77427
f. TXT x77428
f. TXT x77429
f. TXT x77430
f. TXT x77431
f. TXT x77432
f. TXT x77433
f. TXT x77434
f. TXT x77435
f. TXT x77436
f. TXT x77437
f. TXT x77438
f. TXT x77439
bc NS y 0x
f. TXT x77441
f. TXT x77442
f. TXT x77443
f. TXT x77444
f. TXT x77445
f. TXT x77446
f. TXT x77447
f. TXT x77448
f. TXT x77449
f. TXT x77450
f. TXT x77451
f. TXT x77452
f. TXT x77453
f. TXT x77454
f. TXT x77455
f. TXT x77456
f. TXT x77457
f. TXT x77458
f. TXT x77459
f. TXT x77460
f. TXT x77461
f. TXT x77462
f. TXT x77463
f. TXT x77464
f. TXT x77465
f. TXT x77466
f. TXT x77467
f. TXT x77468
f. TXT x77469
f. TXT x77470
f. TXT x77471
f. TXT x77472
f. TXT x77473
f. TXT x77474
f. TXT x77475
f. TXT x77476
f. TXT x77477
f. TXT x77478
f. TXT x77479
f. TXT x77480
f. TXT x77481
f. TXT x77482
f. TXT x77483
f. TXT x77484
f. TXT x77485
f. TXT x77486
f. TXT x77487
f. TXT x77488
f. TXT x77489
f. TXT x77490
f. TXT x77491
f. TXT x77492
f. TXT x77493
f. TXT x77494
f. TXT x77495
f. TXT x77496
f. TXT x77497
f. TXT x77498
f. TXT x77499
f. TXT x77500
f. TXT x77501
f. TXT x77502
f. TXT x77503
axa NS cb
f. TXT x77505
f. TXT x77506
f. TXT x77507
f. TXT x77508
f. TXT x77509
f. TXT x77510
f. TXT x77511
f. TXT x77512
f. TXT x77513
f. TXT x77514
f. TXT x77515
f. TXT x77516
f. TXT x77517
f. TXT x77518
f. TXT x77519
f. TXT x77520
f. TXT x77521
f. TXT x77522
f. TXT x77523
f. TXT x77524
f. TXT x77525
f. TXT x77526
f. TXT x77527
f. TXT x77528
f. TXT x77529
f. TXT x77530
f. TXT x77531
f. TXT x77532
f. TXT x77533
f. TXT x77534
f. TXT x77535
f. TXT x77536
f. TXT x77537
f. TXT x77538
f. TXT x77539
f. TXT x77540
f. TXT x77541
f. TXT x77542
f. TXT x77543
f. TXT x77544
f. TXT x77545
f. TXT x77546
f. TXT x77547
f. TXT x77548
f. TXT x77549
f. TXT x77550
f. TXT x77551
f. TXT x77552
f. TXT x77553
f. TXT x77554
f. TXT x77555
f. TXT x77556
f. TXT x77557
f. TXT x77558
f. TXT x77559
f. TXT x77560
f. TXT x77561
f. TXT x77562
f. TXT x77563
f. TXT x77564
f. TXT x77565
f. TXT x77566
f. TXT x77567
0y.c*-b. TXT b
f. TXT x77569
f. TXT x77570
f. TXT x77571
f. TXT x77572
f. TXT x77573
f. TXT x77574
f. TXT x77575
f. TXT x77576
f. TXT x77577
f. TXT x77578
f. TXT x77579
f. TXT x77580
f. TXT x77581
f. TXT x77582
f. TXT x77583
f. TXT x77584
f. TXT x77585
f. TXT x77586
f. TXT x77587
f. TXT x77588
f. TXT x77589
f. TXT x77590
f. TXT x77591
f. TXT x77592
f. TXT x77593
f. TXT x77594
f. TXT x77595
f. TXT x77596
f. TXT x77597
f. TXT x77598
f. TXT x77599
f. TXT x77600
f. TXT x77601
f. TXT x77602
f. TXT x77603
f. TXT x77604
f. TXT x77605
f. TXT x77606
f. TXT x77607
f. TXT x77608
f. TXT x77609
f. TXT x77610
f. TXT x77611
f. TXT x77612
f. TXT x77613
f. TXT x77614
f. TXT x77615
f. TXT x77616
f. TXT x77617
f. TXT x77618
f. TXT x77619
f. TXT x77620
f. TXT x77621
f. TXT x77622
f. TXT x77623
f. TXT x77624
f. TXT x77625
f. TXT x77626
f. TXT x77627
f. TXT x77628
f. TXT x77629
f. TXT x77630
f. TXT x77631
$TTL 2147483648
f. TXT x77633
f. TXT x77634
f. TXT x77635
f. TXT x77636
f. TXT x77637
f. TXT x77638
f. TXT x77639
f. TXT x77640
f. TXT x77641
f. TXT x77642
f. TXT x77643
f. TXT x77644
f. TXT x77645
f. TXT x77646
f. TXT x77647
f. TXT x77648
f. TXT x77649
f. TXT x77650
f. TXT x77651
f. TXT x77652
f. TXT x77653
f. TXT x77654
f. TXT x77655
f. TXT x77656
f. TXT x77657
f. TXT x77658
f. TXT x77659
f. TXT x77660
f. TXT x77661
f. TXT x77662
f. TXT x77663
f. TXT x77664
f. TXT x77665
f. TXT x77666
f. TXT x77667
f. TXT x77668
f. TXT x77669
f. TXT x77670
f. TXT x77671
f. TXT x77672
f. TXT x77673
f. TXT x77674
f. TXT x77675
f. TXT x77676
f. TXT x77677
f. TXT x77678
f. TXT x77679
f. TXT x77680
f. TXT x77681
f. TXT x77682
f. TXT x77683
f. TXT x77684
f. TXT x77685
f. TXT x77686
f. TXT x77687
f. TXT x77688
f. TXT x77689
f. TXT x77690
f. TXT x77691
f. TXT x77692
f. TXT x77693
f. TXT x77694
f. TXT x77695
@ TXT az y0
f. TXT x77697
f. TXT x77698
f. TXT x77699
f. TXT x77700
f. TXT x77701
f. TXT x77702
f. TXT x77703
f. TXT x77704
f. TXT x77705
f. TXT x77706
f. TXT x77707
f. TXT x77708
f. TXT x77709
f. TXT x77710
f. TXT x77711
f. TXT x77712
f. TXT x77713
f. TXT x77714
f. TXT x77715
f. TXT x77716
f. TXT x77717
f. TXT x77718
f. TXT x77719
f. TXT x77720
f. TXT x77721
f. TXT x77722
f. TXT x77723
f. TXT x77724
f. TXT x77725
f. TXT x77726
f. TXT x77727
f. TXT x77728
f. TXT x77729
f. TXT x77730
f. TXT x77731
f. TXT x77732
f. TXT x77733
f. TXT x77734
f. TXT x77735
f. TXT x77736
f. TXT x77737
f. TXT x77738
f. TXT x77739
f. TXT x77740
f. TXT x77741
f. TXT x77742
f. TXT x77743
f. TXT x77744
f. TXT x77745
f. TXT x77746
f. TXT x77747
f. TXT x77748
f. TXT x77749
f. TXT x77750
f. TXT x77751
f. TXT x77752
f. TXT x77753
f. TXT x77754
f. TXT x77755
f. TXT x77756
f. TXT x77757
f. TXT x77758
f. TXT x77759
; 0
f. TXT x77761
f. TXT x77762
f. TXT x77763
f. TXT x77764
f. TXT x77765
f. TXT x77766
f. TXT x77767
f. TXT x77768
f. TXT x77769
f. TXT x77770
f. TXT x77771
f. TXT x77772
f. TXT x77773
f. TXT x77774
f. TXT x77775
f. TXT x77776
f. TXT x77777
f. TXT x77778
f. TXT x77779
f. TXT x77780
f. TXT x77781
f. TXT x77782
f. TXT x77783
f. TXT x77784
f. TXT x77785
f. TXT x77786
f. TXT x77787
f. TXT x77788
f. TXT x77789
f. TXT x77790
f. TXT x77791
f. TXT x77792
f. TXT x77793
f. TXT x77794
f. TXT x77795
f. TXT x77796
f. TXT x77797
f. TXT x77798
f. TXT x77799
f. TXT x77800
f. TXT x77801
f. TXT x77802
f. TXT x77803
f. TXT x77804
f. TXT x77805
f. TXT x77806
f. TXT x77807
f. TXT x77808
f. TXT x77809
f. TXT x77810
f. TXT x77811
f. TXT x77812
f. TXT x77813
f. TXT x77814
f. TXT x77815
f. TXT x77816
f. TXT x77817
f. TXT x77818
f. TXT x77819
f. TXT x77820
f. TXT x77821
f. TXT x77822
f. TXT x77823
@ A c*0b x*
f. TXT x77825
f. TXT x77826
f. TXT x77827
f. TXT x77828
f. TXT x77829
f. TXT x77830
f. TXT x77831
f. TXT x77832
f. TXT x77833
f. TXT x77834
f. TXT x77835
f. TXT x77836
f. TXT x77837
f. TXT x77838
f. TXT x77839
f. TXT x77840
f. TXT x77841
f. TXT x77842
f. TXT x77843
f. TXT x77844
f. TXT x77845
f. TXT x77846
f. TXT x77847
f. TXT x77848
f. TXT x77849
f. TXT x77850
f. TXT x77851
f. TXT x77852
f. TXT x77853
f. TXT x77854
f. TXT x77855
f. TXT x77856
f. TXT x77857
f. TXT x77858
f. TXT x77859
f. TXT x77860
f. TXT x77861
f. TXT x77862
f. TXT x77863
f. TXT x77864
f. TXT x77865
f. TXT x77866
f. TXT x77867
f. TXT x77868
f. TXT x77869
f. TXT x77870
f. TXT x77871
f. TXT x77872
f. TXT x77873
f. TXT x77874
f. TXT x77875
f. TXT x77876
f. TXT x77877
f. TXT x77878
f. TXT x77879
f. TXT x77880
f. TXT x77881
f. TXT x77882
f. TXT x77883
f. TXT x77884
f. TXT x77885
f. TXT x77886
f. TXT x77887

f. TXT x77889
f. TXT x77890
f. TXT x77891
f. TXT x77892
f. TXT x77893
f. TXT x77894
f. TXT x77895
f. TXT x77896
f. TXT x77897
f. TXT x77898
f. TXT x77899
f. TXT x77900
f. TXT x77901
f. TXT x77902
f. TXT x77903
f. TXT x77904
f. TXT x77905
f. TXT x77906
f. TXT x77907
f. TXT x77908
f. TXT x77909
f. TXT x77910
f. TXT x77911
f. TXT x77912
f. TXT x77913
f. TXT x77914
f. TXT x77915
f. TXT x77916
f. TXT x77917
f. TXT x77918
f. TXT x77919
f. TXT x77920
f. TXT x77921
f. TXT x77922
f. TXT x77923
f. TXT x77924
f. TXT x77925
f. TXT x77926
f. TXT x77927
f. TXT x77928
f. TXT x77929
f. TXT x77930
f. TXT x77931
f. TXT x77932
f. TXT x77933
f. TXT x77934
f. TXT x77935
f. TXT x77936
f. TXT x77937
f. TXT x77938
f. TXT x77939
f. TXT x77940
f. TXT x77941
f. TXT x77942
f. TXT x77943
f. TXT x77944
f. TXT x77945
f. TXT x77946
f. TXT x77947
f. TXT x77948
f. TXT x77949
f. TXT x77950
f. TXT x77951
; x-by
f. TXT x77953
f. TXT x77954
f. TXT x77955
f. TXT x77956
f. TXT x77957
f. TXT x77958
f. TXT x77959
f. TXT x77960
f. TXT x77961
f. TXT x77962
f. TXT x77963
f. TXT x77964
f. TXT x77965
f. TXT x77966
f. TXT x77967
f. TXT x77968
f. TXT x77969
f. TXT x77970
f. TXT x77971
f. TXT x77972
f. TXT x77973
f. TXT x77974
f. TXT x77975
f. TXT x77976
f. TXT x77977
f. TXT x77978
f. TXT x77979
f. TXT x77980
f. TXT x77981
f. TXT x77982
f. TXT x77983
f. TXT x77984
f. TXT x77985
f. TXT x77986
f. TXT x77987
f. TXT x77988
f. TXT x77989
f. TXT x77990
f. TXT x77991
f. TXT x77992
f. TXT x77993
f. TXT x77994
f. TXT x77995
f. TXT x77996
f. TXT x77997
f. TXT x77998
f. TXT x77999
f. TXT x78000
f. TXT x78001
f. TXT x78002
f. TXT x78003
f. TXT x78004
f. TXT x78005
f. TXT x78006
f. TXT x78007
f. TXT x78008
f. TXT x78009
f. TXT x78010
f. TXT x78011
f. TXT x78012
f. TXT x78013
f. TXT x78014
f. TXT x78015
 TXT -c0b -
f. TXT x78017
f. TXT x78018
f. TXT x78019
f. TXT x78020
f. TXT x78021
f. TXT x78022
f. TXT x78023
f. TXT x78024
f. TXT x78025
f. TXT x78026
f. TXT x78027
f. TXT x78028
f. TXT x78029
f. TXT x78030
f. TXT x78031
f. TXT x78032
f. TXT x78033
f. TXT x78034
f. TXT x78035
f. TXT x78036
f. TXT x78037
f. TXT x78038
f. TXT x78039
f. TXT x78040
f. TXT x78041
f. TXT x78042
f. TXT x78043
f. TXT x78044
f. TXT x78045
f. TXT x78046
f. TXT x78047
f. TXT x78048
f. TXT x78049
f. TXT x78050
f. TXT x78051
f. TXT x78052
f. TXT x78053
f. TXT x78054
f. TXT x78055
f. TXT x78056
f. TXT x78057
f. TXT x78058
f. TXT x78059
f. TXT x78060
f. TXT x78061
f. TXT x78062
f. TXT x78063
f. TXT x78064
f. TXT x78065
f. TXT x78066
f. TXT x78067
f. TXT x78068
f. TXT x78069
f. TXT x78070
f. TXT x78071
f. TXT x78072
f. TXT x78073
f. TXT x78074
f. TXT x78075
f. TXT x78076
f. TXT x78077
f. TXT x78078
f. TXT x78079
; *x
f. TXT x78081
f. TXT x78082
f. TXT x78083
f. TXT x78084
f. TXT x78085
f. TXT x78086
f. TXT x78087
f. TXT x78088
f. TXT x78089
f. TXT x78090
f. TXT x78091
f. TXT x78092
f. TXT x78093
f. TXT x78094
f. TXT x78095
f. TXT x78096
f. TXT x78097
f. TXT x78098
f. TXT x78099
f. TXT x78100
f. TXT x78101
f. TXT x78102
f. TXT x78103
f. TXT x78104
f. TXT x78105
f. TXT x78106
f. TXT x78107
f. TXT x78108
f. TXT x78109
f. TXT x78110
f. TXT x78111
f. TXT x78112
f. TXT x78113
f. TXT x78114
f. TXT x78115
f. TXT x78116
f. TXT x78117
f. TXT x78118
f. TXT x78119
f. TXT x78120
f. TXT x78121
f. TXT x78122
f. TXT x78123
f. TXT x78124
f. TXT x78125
f. TXT x78126
f. TXT x78127
f. TXT x78128
f. TXT x78129
f. TXT x78130
f. TXT x78131
f. TXT x78132
f. TXT x78133
f. TXT x78134
f. TXT x78135
f. TXT x78136
f. TXT x78137
f. TXT x78138
f. TXT x78139
f. TXT x78140
f. TXT x78141
f. TXT x78142
f. TXT x78143
; zbz
f. TXT x78145
f. TXT x78146
f. TXT x78147
f. TXT x78148
f. TXT x78149
f. TXT x78150
f. TXT x78151
f. TXT x78152
f. TXT x78153
f. TXT x78154
f. TXT x78155
f. TXT x78156
f. TXT x78157
f. TXT x78158
f. TXT x78159
f. TXT x78160
f. TXT x78161
f. TXT x78162
f. TXT x78163
f. TXT x78164
f. TXT x78165
f. TXT x78166
f. TXT x78167
f. TXT x78168
f. TXT x78169
f. TXT x78170
f. TXT x78171
f. TXT x78172
f. TXT x78173
f. TXT x78174
f. TXT x78175
f. TXT x78176
f. TXT x78177
f. TXT x78178
f. TXT x78179
f. TXT x78180
f. TXT x78181
f. TXT x78182
f. TXT x78183
f. TXT x78184
f. TXT x78185
f. TXT x78186
f. TXT x78187
f. TXT x78188
f. TXT x78189
f. TXT x78190
f. TXT x78191
f. TXT x78192
f. TXT x78193
f. TXT x78194
f. TXT x78195
f. TXT x78196
f. TXT x78197
f. TXT x78198
f. TXT x78199
f. TXT x78200
f. TXT x78201
f. TXT x78202
f. TXT x78203
f. TXT x78204
f. TXT x78205
f. TXT x78206
f. TXT x78207
$ORIGIN y.00.
f. TXT x78209
f. TXT x78210
f. TXT x78211
f. TXT x78212
f. TXT x78213
f. TXT x78214
f. TXT x78215
f. TXT x78216
f. TXT x78217
f. TXT x78218
f. TXT x78219
f. TXT x78220
f. TXT x78221
f. TXT x78222
f. TXT x78223
f. TXT x78224
f. TXT x78225
f. TXT x78226
f. TXT x78227
f. TXT x78228
f. TXT x78229
f. TXT x78230
f. TXT x78231
f. TXT x78232
f. TXT x78233
f. TXT x78234
f. TXT x78235
f. TXT x78236
f. TXT x78237
f. TXT x78238
f. TXT x78239
f. TXT x78240
f. TXT x78241
f. TXT x78242
f. TXT x78243
f. TXT x78244
f. TXT x78245
f. TXT x78246
f. TXT x78247
f. TXT x78248
f. TXT x78249
f. TXT x78250
f. TXT x78251
f. TXT x78252
f. TXT x78253
f. TXT x78254
f. TXT x78255
f. TXT x78256
f. TXT x78257
f. TXT x78258
f. TXT x78259
f. TXT x78260
f. TXT x78261
f. TXT x78262
f. TXT x78263
f. TXT x78264
f. TXT x78265
f. TXT x78266
f. TXT x78267
f. TXT x78268
f. TXT x78269
f. TXT x78270
f. TXT x78271
 TXT - -a b0y
f. TXT x78273
f. TXT x78274
f. TXT x78275
f. TXT x78276
f. TXT x78277
f. TXT x78278
f. TXT x78279
f. TXT x78280
f. TXT x78281
f. TXT x78282
f. TXT x78283
f. TXT x78284
f. TXT x78285
f. TXT x78286
f. TXT x78287
f. TXT x78288
f. TXT x78289
f. TXT x78290
f. TXT x78291
f. TXT x78292
f. TXT x78293
f. TXT x78294
f. TXT x78295
f. TXT x78296
f. TXT x78297
f. TXT x78298
f. TXT x78299
f. TXT x78300
f. TXT x78301
f. TXT x78302
f. TXT x78303
f. TXT x78304
f. TXT x78305
f. TXT x78306
f. TXT x78307
f. TXT x78308
f. TXT x78309
f. TXT x78310
f. TXT x78311
f. TXT x78312
f. TXT x78313
f. TXT x78314
f. TXT x78315
f. TXT x78316
f. TXT x78317
f. TXT x78318
f. TXT x78319
f. TXT x78320
f. TXT x78321
f. TXT x78322
f. TXT x78323
f. TXT x78324
f. TXT x78325
f. TXT x78326
f. TXT x78327
f. TXT x78328
f. TXT x78329
f. TXT x78330
f. TXT x78331
f. TXT x78332
f. TXT x78333
f. TXT x78334
f. TXT x78335
@ A aa* cyz0
f. TXT x78337
f. TXT x78338
f. TXT x78339
f. TXT x78340
f. TXT x78341
f. TXT x78342
f. TXT x78343
f. TXT x78344
f. TXT x78345
f. TXT x78346
f. TXT x78347
f. TXT x78348
f. TXT x78349
f. TXT x78350
f. TXT x78351
f. TXT x78352
f. TXT x78353
f. TXT x78354
f. TXT x78355
f. TXT x78356
f. TXT x78357
f. TXT x78358
f. TXT x78359
f. TXT x78360
f. TXT x78361
f. TXT x78362
f. TXT x78363
f. TXT x78364
f. TXT x78365
f. TXT x78366
f. TXT x78367
f. TXT x78368
f. TXT x78369
f. TXT x78370
f. TXT x78371
f. TXT x78372
f. TXT x78373
f. TXT x78374
f. TXT x78375
f. TXT x78376
f. TXT x78377
f. TXT x78378
f. TXT x78379
f. TXT x78380
f. TXT x78381
f. TXT x78382
f. TXT x78383
f. TXT x78384
f. TXT x78385
f. TXT x78386
f. TXT x78387
f. TXT x78388
f. TXT x78389
f. TXT x78390
f. TXT x78391
f. TXT x78392
f. TXT x78393
f. TXT x78394
f. TXT x78395
f. TXT x78396
f. TXT x78397
f. TXT x78398
f. TXT x78399
a.*. TXT zy* czy b
f. TXT x78401
f. TXT x78402
f. TXT x78403
f. TXT x78404
f. TXT x78405
f. TXT x78406
f. TXT x78407
f. TXT x78408
f. TXT x78409
f. TXT x78410
f. TXT x78411
f. TXT x78412
f. TXT x78413
f. TXT x78414
f. TXT x78415
f. TXT x78416
f. TXT x78417
f. TXT x78418
f. TXT x78419
f. TXT x78420
f. TXT x78421
f. TXT x78422
f. TXT x78423
f. TXT x78424
f. TXT x78425
f. TXT x78426
f. TXT x78427
f. TXT x78428
f. TXT x78429
f. TXT x78430
f. TXT x78431
f. TXT x78432
f. TXT x78433
f. TXT x78434
f. TXT x78435
f. TXT x78436
f. TXT x78437
f. TXT x78438
f. TXT x78439
f. TXT x78440
f. TXT x78441
f. TXT x78442
f. TXT x78443
f. TXT x78444
f. TXT x78445
f. TXT x78446
f. TXT x78447
f. TXT x78448
f. TXT x78449
f. TXT x78450
f. TXT x78451
f. TXT x78452
f. TXT x78453
f. TXT x78454
f. TXT x78455
f. TXT x78456
f. TXT x78457
f. TXT x78458
f. TXT x78459
f. TXT x78460
f. TXT x78461
f. TXT x78462
f. TXT x78463
; 00b
f. TXT x78465
f. TXT x78466
f. TXT x78467
f. TXT x78468
f. TXT x78469
f. TXT x78470
f. TXT x78471
f. TXT x78472
f. TXT x78473
f. TXT x78474
f. TXT x78475
f. TXT x78476
f. TXT x78477
f. TXT x78478
f. TXT x78479
f. TXT x78480
f. TXT x78481
f. TXT x78482
f. TXT x78483
f. TXT x78484
f. TXT x78485
f. TXT x78486
f. TXT x78487
f. TXT x78488
f. TXT x78489
f. TXT x78490
f. TXT x78491
f. TXT x78492
f. TXT x78493
f. TXT x78494
f. TXT x78495
f. TXT x78496
f. TXT x78497
f. TXT x78498
f. TXT x78499
f. TXT x78500
f. TXT x78501
f. TXT x78502
f. TXT x78503
f. TXT x78504
f. TXT x78505
f. TXT x78506
f. TXT x78507
f. TXT x78508
f. TXT x78509
f. TXT x78510
f. TXT x78511
f. TXT x78512
f. TXT x78513
f. TXT x78514
f. TXT x78515
f. TXT x78516
f. TXT x78517
f. TXT x78518
f. TXT x78519
f. TXT x78520
f. TXT x78521
f. TXT x78522
f. TXT x78523
f. TXT x78524
f. TXT x78525
f. TXT x78526
f. TXT x78527
@ NS cxz
f. TXT x78529
f. TXT x78530
f. TXT x78531
f. TXT x78532
f. TXT x78533
f. TXT x78534
f. TXT x78535
f. TXT x78536
f. TXT x78537
f. TXT x78538
f. TXT x78539
f. TXT x78540
f. TXT x78541
f. TXT x78542
f. TXT x78543
f. TXT x78544
f. TXT x78545
f. TXT x78546
f. TXT x78547
f. TXT x78548
f. TXT x78549
f. TXT x78550
f. TXT x78551
f. TXT x78552
f. TXT x78553
f. TXT x78554
f. TXT x78555
f. TXT x78556
f. TXT x78557
f. TXT x78558
f. TXT x78559
f. TXT x78560
f. TXT x78561
f. TXT x78562
f. TXT x78563
f. TXT x78564
f. TXT x78565
f. TXT x78566
f. TXT x78567
f. TXT x78568
f. TXT x78569
f. TXT x78570
f. TXT x78571
f. TXT x78572
f. TXT x78573
f. TXT x78574
f. TXT x78575
f. TXT x78576
f. TXT x78577
f. TXT x78578
f. TXT x78579
f. TXT x78580
f. TXT x78581
f. TXT x78582
f. TXT x78583
f. TXT x78584
f. TXT x78585
f. TXT x78586
f. TXT x78587
f. TXT x78588
f. TXT x78589
f. TXT x78590
f. TXT x78591
cycz A x-x 0y
f. TXT x78593
f. TXT x78594
f. TXT x78595
f. TXT x78596
f. TXT x78597
f. TXT x78598
f. TXT x78599
f. TXT x78600
f. TXT x78601
f. TXT x78602
f. TXT x78603
f. TXT x78604
f. TXT x78605
f. TXT x78606
f. TXT x78607
f. TXT x78608
f. TXT x78609
f. TXT x78610
f. TXT x78611
f. TXT x78612
f. TXT x78613
f. TXT x78614
f. TXT x78615
f. TXT x78616
f. TXT x78617
f. TXT x78618
f. TXT x78619
f. TXT x78620
f. TXT x78621
f. TXT x78622
f. TXT x78623
f. TXT x78624
f. TXT x78625
f. TXT x78626
f. TXT x78627
f. TXT x78628
f. TXT x78629
f. TXT x78630
f. TXT x78631
f. TXT x78632
f. TXT x78633
f. TXT x78634
f. TXT x78635
f. TXT x78636
f. TXT x78637
f. TXT x78638
f. TXT x78639
f. TXT x78640
f. TXT x78641
f. TXT x78642
f. TXT x78643
f. TXT x78644
f. TXT x78645
f. TXT x78646
f. TXT x78647
f. TXT x78648
f. TXT x78649
f. TXT x78650
f. TXT x78651
f. TXT x78652
f. TXT x78653
f. TXT x78654
f. TXT x78655

f. TXT x78657
f. TXT x78658
f. TXT x78659
f. TXT x78660
f. TXT x78661
f. TXT x78662
f. TXT x78663
f. TXT x78664
f. TXT x78665
f. TXT x78666
f. TXT x78667
f. TXT x78668
f. TXT x78669
f. TXT x78670
f. TXT x78671
f. TXT x78672
f. TXT x78673
f. TXT x78674
f. TXT x78675
f. TXT x78676
f. TXT x78677
f. TXT x78678
f. TXT x78679
f. TXT x78680
f. TXT x78681
f. TXT x78682
f. TXT x78683
f. TXT x78684
f. TXT x78685
f. TXT x78686
f. TXT x78687
f. TXT x78688
f. TXT x78689
f. TXT x78690
f. TXT x78691
f. TXT x78692
f. TXT x78693
f. TXT x78694
f. TXT x78695
f. TXT x78696
f. TXT x78697
f. TXT x78698
f. TXT x78699
f. TXT x78700
f. TXT x78701
f. TXT x78702
f. TXT x78703
f. TXT x78704
f. TXT x78705
f. TXT x78706
f. TXT x78707
f. TXT x78708
f. TXT x78709
f. TXT x78710
f. TXT x78711
f. TXT x78712
f. TXT x78713
f. TXT x78714
f. TXT x78715
f. TXT x78716
f. TXT x78717
f. TXT x78718
f. TXT x78719
$ORIGIN c.
f. TXT x78721
f. TXT x78722
f. TXT x78723
f. TXT x78724
f. TXT x78725
f. TXT x78726
f. TXT x78727
f. TXT x78728
f. TXT x78729
f. TXT x78730
f. TXT x78731
f. TXT x78732
f. TXT x78733
f. TXT x78734
f. TXT x78735
f. TXT x78736
f. TXT x78737
f. TXT x78738
f. TXT x78739
f. TXT x78740
f. TXT x78741
f. TXT x78742
f. TXT x78743
f. TXT x78744
f. TXT x78745
f. TXT x78746
f. TXT x78747
f. TXT x78748
f. TXT x78749
f. TXT x78750
f. TXT x78751
f. TXT x78752
f. TXT x78753
f. TXT x78754
f. TXT x78755
f. TXT x78756
f. TXT x78757
f. TXT x78758
f. TXT x78759
f. TXT x78760
f. TXT x78761
f. TXT x78762
f. TXT x78763
f. TXT x78764
f. TXT x78765
f. TXT x78766
f. TXT x78767
f. TXT x78768
f. TXT x78769
f. TXT x78770
f. TXT x78771
f. TXT x78772
f. TXT x78773
f. TXT x78774
f. TXT x78775
f. TXT x78776
f. TXT x78777
f. TXT x78778
f. TXT x78779
f. TXT x78780
f. TXT x78781
f. TXT x78782
f. TXT x78783
*.z. NS * c yy
f. TXT x78785
f. TXT x78786
f. TXT x78787
f. TXT x78788
f. TXT x78789
f. TXT x78790
f. TXT x78791
f. TXT x78792
f. TXT x78793
f. TXT x78794
f. TXT x78795
f. TXT x78796
f. TXT x78797
f. TXT x78798
f. TXT x78799
f. TXT x78800
f. TXT x78801
f. TXT x78802
f. TXT x78803
f. TXT x78804
f. TXT x78805
f. TXT x78806
f. TXT x78807
f. TXT x78808
f. TXT x78809
f. TXT x78810
f. TXT x78811
f. TXT x78812
f. TXT x78813
f. TXT x78814
f. TXT x78815
f. TXT x78816
f. TXT x78817
f. TXT x78818
f. TXT x78819
f. TXT x78820
f. TXT x78821
f. TXT x78822
f. TXT x78823
f. TXT x78824
f. TXT x78825
f. TXT x78826
f. TXT x78827
f. TXT x78828
f. TXT x78829
f. TXT x78830
f. TXT x78831
f. TXT x78832
f. TXT x78833
f. TXT x78834
f. TXT x78835
f. TXT x78836
f. TXT x78837
f. TXT x78838
f. TXT x78839
f. TXT x78840
f. TXT x78841
f. TXT x78842
f. TXT x78843
f. TXT x78844
f. TXT x78845
f. TXT x78846
f. TXT x78847
@ A -yb
f. TXT x78849
f. TXT x78850
f. TXT x78851
f. TXT x78852
f. TXT x78853
f. TXT x78854
f. TXT x78855
f. TXT x78856
f. TXT x78857
f. TXT x78858
f. TXT x78859
f. TXT x78860
f. TXT x78861
f. TXT x78862
f. TXT x78863
f. TXT x78864
f. TXT x78865
f. TXT x78866
f. TXT x78867
f. TXT x78868
f. TXT x78869
f. TXT x78870
f. TXT x78871
f. TXT x78872
f. TXT x78873
f. TXT x78874
f. TXT x78875
f. TXT x78876
f. TXT x78877
f. TXT x78878
f. TXT x78879
f. TXT x78880
f. TXT x78881
f. TXT x78882
f. TXT x78883
f. TXT x78884
f. TXT x78885
f. TXT x78886
f. TXT x78887
f. TXT x78888
f. TXT x78889
f. TXT x78890
f. TXT x78891
f. TXT x78892
f. TXT x78893
f. TXT x78894
f. TXT x78895
f. TXT x78896
f. TXT x78897
f. TXT x78898
f. TXT x78899
f. TXT x78900
f. TXT x78901
f. TXT x78902
f. TXT x78903
f. TXT x78904
f. TXT x78905
f. TXT x78906
f. TXT x78907
f. TXT x78908
f. TXT x78909
f. TXT x78910
f. TXT x78911
-c0. TXT c
f. TXT x78913
f. TXT x78914
f. TXT x78915
f. TXT x78916
f. TXT x78917
f. TXT x78918
f. TXT x78919
f. TXT x78920
f. TXT x78921
f. TXT x78922
f. TXT x78923
f. TXT x78924
f. TXT x78925
f. TXT x78926
f. TXT x78927
f. TXT x78928
f. TXT x78929
f. TXT x78930
f. TXT x78931
f. TXT x78932
f. TXT x78933
f. TXT x78934
f. TXT x78935
f. TXT x78936
f. TXT x78937
f. TXT x78938
f. TXT x78939
f. TXT x78940
f. TXT x78941
f. TXT x78942
f. TXT x78943
f. TXT x78944
f. TXT x78945
f. TXT x78946
f. TXT x78947
f. TXT x78948
f. TXT x78949
f. TXT x78950
f. TXT x78951
f. TXT x78952
f. TXT x78953
f. TXT x78954
f. TXT x78955
f. TXT x78956
f. TXT x78957
f. TXT x78958
f. TXT x78959
f. TXT x78960
f. TXT x78961
f. TXT x78962
f. TXT x78963
f. TXT x78964
f. TXT x78965
f. TXT x78966
f. TXT x78967
f. TXT x78968
f. TXT x78969
f. TXT x78970
f. TXT x78971
f. TXT x78972
f. TXT x78973
f. TXT x78974
f. TXT x78975

f. TXT x78977
f. TXT x78978
f. TXT x78979
f. TXT x78980
f. TXT x78981
f. TXT x78982
f. TXT x78983
f. TXT x78984
f. TXT x78985
f. TXT x78986
f. TXT x78987
f. TXT x78988
f. TXT x78989
f. TXT x78990
f. TXT x78991
f. TXT x78992
f. TXT x78993
f. TXT x78994
f. TXT x78995
f. TXT x78996
f. TXT x78997
f. TXT x78998
f. TXT x78999
f. TXT x79000
f. TXT x79001
f. TXT x79002
f. TXT x79003
f. TXT x79004
f. TXT x79005
f. TXT x79006
f. TXT x79007
f. TXT x79008
f. TXT x79009
f. TXT x79010
f. TXT x79011
f. TXT x79012
f. TXT x79013
f. TXT x79014
f. TXT x79015
f. TXT x79016
f. TXT x79017
f. TXT x79018
f. TXT x79019
f. TXT x79020
f. TXT x79021
f. TXT x79022
f. TXT x79023
f. TXT x79024
f. TXT x79025
f. TXT x79026
f. TXT x79027
f. TXT x79028
f. TXT x79029
f. TXT x79030
f. TXT x79031
f. TXT x79032
f. TXT x79033
f. TXT x79034
f. TXT x79035
f. TXT x79036
f. TXT x79037
f. TXT x79038
f. TXT x79039
$ORIGIN -.a-x.
f. TXT x79041
f. TXT x79042
f. TXT x79043
f. TXT x79044
f. TXT x79045
f. TXT x79046
f. TXT x79047
f. TXT x79048
f. TXT x79049
f. TXT x79050
f. TXT x79051
f. TXT x79052
f. TXT x79053
f. TXT x79054
f. TXT x79055
f. TXT x79056
f. TXT x79057
f. TXT x79058
f. TXT x79059
f. TXT x79060
f. TXT x79061
f. TXT x79062
f. TXT x79063
f. TXT x79064
f. TXT x79065
f. TXT x79066
f. TXT x79067
f. TXT x79068
f. TXT x79069
f. TXT x79070
f. TXT x79071
f. TXT x79072
f. TXT x79073
f. TXT x79074
f. TXT x79075
f. TXT x79076
f. TXT x79077
f. TXT x79078
f. TXT x79079
f. TXT x79080
f. TXT x79081
f. TXT x79082
f. TXT x79083
f. TXT x79084
f. TXT x79085
f. TXT x79086
f. TXT x79087
f. TXT x79088
f. TXT x79089
f. TXT x79090
f. TXT x79091
f. TXT x79092
f. TXT x79093
f. TXT x79094
f. TXT x79095
f. TXT x79096
f. TXT x79097
f. TXT x79098
f. TXT x79099
f. TXT x79100
f. TXT x79101
f. TXT x79102
f. TXT x79103
-. NS 00y xzy bc*
f. TXT x79105
f. TXT x79106
f. TXT x79107
f. TXT x79108
f. TXT x79109
f. TXT x79110
f. TXT x79111
f. TXT x79112
f. TXT x79113
f. TXT x79114
f. TXT x79115
f. TXT x79116
f. TXT x79117
f. TXT x79118
f. TXT x79119
f. TXT x79120
f. TXT x79121
f. TXT x79122
f. TXT x79123
f. TXT x79124
f. TXT x79125
f. TXT x79126
f. TXT x79127
f. TXT x79128
f. TXT x79129
f. TXT x79130
f. TXT x79131
f. TXT x79132
f. TXT x79133
f. TXT x79134
f. TXT x79135
f. TXT x79136
f. TXT x79137
f. TXT x79138
f. TXT x79139
f. TXT x79140
f. TXT x79141
f. TXT x79142
f. TXT x79143
f. TXT x79144
f. TXT x79145
f. TXT x79146
f. TXT x79147
f. TXT x79148
f. TXT x79149
f. TXT x79150
f. TXT x79151
f. TXT x79152
f. TXT x79153
f. TXT x79154
f. TXT x79155
f. TXT x79156
f. TXT x79157
f. TXT x79158
f. TXT x79159
f. TXT x79160
f. TXT x79161
f. TXT x79162
f. TXT x79163
f. TXT x79164
f. TXT x79165
f. TXT x79166
f. TXT x79167
@ A 0 xbyz
f. TXT x79169
f. TXT x79170
f. TXT x79171
f. TXT x79172
f. TXT x79173
f. TXT x79174
f. TXT x79175
f. TXT x79176
f. TXT x79177
f. TXT x79178
f. TXT x79179
f. TXT x79180
f. TXT x79181
f. TXT x79182
f. TXT x79183
f. TXT x79184
f. TXT x79185
f. TXT x79186
f. TXT x79187
f. TXT x79188
f. TXT x79189
f. TXT x79190
f. TXT x79191
f. TXT x79192
f. TXT x79193
f. TXT x79194
f. TXT x79195
f. TXT x79196
f. TXT x79197
f. TXT x79198
f. TXT x79199
f. TXT x79200
f. TXT x79201
f. TXT x79202
f. TXT x79203
f. TXT x79204
f. TXT x79205
f. TXT x79206
f. TXT x79207
f. TXT x79208
f. TXT x79209
f. TXT x79210
f. TXT x79211
f. TXT x79212
f. TXT x79213
f. TXT x79214
f. TXT x79215
f. TXT x79216
f. TXT x79217
f. TXT x79218
f. TXT x79219
f. TXT x79220
f. TXT x79221
f. TXT x79222
f. TXT x79223
f. TXT x79224
f. TXT x79225
f. TXT x79226
f. TXT x79227
f. TXT x79228
f. TXT x79229
f. TXT x79230
f. TXT x79231
 TXT * yy-y
f. TXT x79233
f. TXT x79234
f. TXT x79235
f. TXT x79236
f. TXT x79237
f. TXT x79238
f. TXT x79239
f. TXT x79240
f. TXT x79241
f. TXT x79242
f. TXT x79243
f. TXT x79244
f. TXT x79245
f. TXT x79246
f. TXT x79247
f. TXT x79248
f. TXT x79249
f. TXT x79250
f. TXT x79251
f. TXT x79252
f. TXT x79253
f. TXT x79254
f. TXT x79255
f. TXT x79256
f. TXT x79257
f. TXT x79258
f. TXT x79259
f. TXT x79260
f. TXT x79261
f. TXT x79262
f. TXT x79263
f. TXT x79264
f. TXT x79265
f. TXT x79266
f. TXT x79267
f. TXT x79268
f. TXT x79269
f. TXT x79270
f. TXT x79271
f. TXT x79272
f. TXT x79273
f. TXT x79274
f. TXT x79275
f. TXT x79276
f. TXT x79277
f. TXT x79278
f. TXT x79279
f. TXT x79280
f. TXT x79281
f. TXT x79282
f. TXT x79283
f. TXT x79284
f. TXT x79285
f. TXT x79286
f. TXT x79287
f. TXT x79288
f. TXT x79289
f. TXT x79290
f. TXT x79291
f. TXT x79292
f. TXT x79293
f. TXT x79294
f. TXT x79295
$TTL 0
f. TXT x79297
f. TXT x79298
f. TXT x79299
f. TXT x79300
f. TXT x79301
f. TXT x79302
f. TXT x79303
f. TXT x79304
f. TXT x79305
f. TXT x79306
f. TXT x79307
f. TXT x79308
f. TXT x79309
f. TXT x79310
f. TXT x79311
f. TXT x79312
f. TXT x79313
f. TXT x79314
f. TXT x79315
f. TXT x79316
f. TXT x79317
f. TXT x79318
f. TXT x79319
f. TXT x79320
f. TXT x79321
f. TXT x79322
f. TXT x79323
f. TXT x79324
f. TXT x79325
f. TXT x79326
f. TXT x79327
f. TXT x79328
f. TXT x79329
f. TXT x79330
f. TXT x79331
f. TXT x79332
f. TXT x79333
f. TXT x79334
f. TXT x79335
f. TXT x79336
f. TXT x79337
f. TXT x79338
f. TXT x79339
f. TXT x79340
f. TXT x79341
f. TXT x79342
f. TXT x79343
f. TXT x79344
f. TXT x79345
f. TXT x79346
f. TXT x79347
f. TXT x79348
f. TXT x79349
f. TXT x79350
f. TXT x79351
f. TXT x79352
f. TXT x79353
f. TXT x79354
f. TXT x79355
f. TXT x79356
f. TXT x79357
f. TXT x79358
f. TXT x79359
 NS by bxy zbz
f. TXT x79361
f. TXT x79362
f. TXT x79363
f. TXT x79364
f. TXT x79365
f. TXT x79366
f. TXT x79367
f. TXT x79368
f. TXT x79369
f. TXT x79370
f. TXT x79371
f. TXT x79372
f. TXT x79373
f. TXT x79374
f. TXT x79375
f. TXT x79376
f. TXT x79377
f. TXT x79378
f. TXT x79379
f. TXT x79380
f. TXT x79381
f. TXT x79382
f. TXT x79383
f. TXT x79384
f. TXT x79385
f. TXT x79386
f. TXT x79387
f. TXT x79388
f. TXT x79389
f. TXT x79390
f. TXT x79391
f. TXT x79392
f. TXT x79393
f. TXT x79394
f. TXT x79395
f. TXT x79396
f. TXT x79397
f. TXT x79398
f. TXT x79399
f. TXT x79400
f. TXT x79401
f. TXT x79402
f. TXT x79403
f. TXT x79404
f. TXT x79405
f. TXT x79406
f. TXT x79407
f. TXT x79408
f. TXT x79409
f. TXT x79410
f. TXT x79411
f. TXT x79412
f. TXT x79413
f. TXT x79414
f. TXT x79415
f. TXT x79416
f. TXT x79417
f. TXT x79418
f. TXT x79419
f. TXT x79420
f. TXT x79421
f. TXT x79422
f. TXT x79423
@ A *b-c -
f. TXT x79425
f. TXT x79426
f. TXT x79427
f. TXT x79428
f. TXT x79429
f. TXT x79430
f. TXT x79431
f. TXT x79432
f. TXT x79433
f. TXT x79434
f. TXT x79435
f. TXT x79436
f. TXT x79437
f. TXT x79438
f. TXT x79439
f. TXT x79440
f. TXT x79441
f. TXT x79442
f. TXT x79443
f. TXT x79444
f. TXT x79445
f. TXT x79446
f. TXT x79447
f. TXT x79448
f. TXT x79449
f. TXT x79450
f. TXT x79451
f. TXT x79452
f. TXT x79453
f. TXT x79454
f. TXT x79455
f. TXT x79456
f. TXT x79457
f. TXT x79458
f. TXT x79459
f. TXT x79460
f. TXT x79461
f. TXT x79462
f. TXT x79463
f. TXT x79464
f. TXT x79465
f. TXT x79466
f. TXT x79467
f. TXT x79468
f. TXT x79469
f. TXT x79470
f. TXT x79471
f. TXT x79472
f. TXT x79473
f. TXT x79474
f. TXT x79475
f. TXT x79476
f. TXT x79477
f. TXT x79478
f. TXT x79479
f. TXT x79480
f. TXT x79481
f. TXT x79482
f. TXT x79483
f. TXT x79484
f. TXT x79485
f. TXT x79486
f. TXT x79487
-ayy. A xxb zy-
f. TXT x79489
f. TXT x79490
f. TXT x79491
f. TXT x79492
f. TXT x79493
f. TXT x79494
f. TXT x79495
f. TXT x79496
f. TXT x79497
f. TXT x79498
f. TXT x79499
f. TXT x79500
f. TXT x79501
f. TXT x79502
f. TXT x79503
f. TXT x79504
f. TXT x79505
f. TXT x79506
f. TXT x79507
f. TXT x79508
f. TXT x79509
f. TXT x79510
f. TXT x79511
f. TXT x79512
f. TXT x79513
f. TXT x79514
f. TXT x79515
f. TXT x79516
f. TXT x79517
f. TXT x79518
f. TXT x79519
f. TXT x79520
f. TXT x79521
f. TXT x79522
f. TXT x79523
f. TXT x79524
f. TXT x79525
f. TXT x79526
f. TXT x79527
f. TXT x79528
f. TXT x79529
f. TXT x79530
f. TXT x79531
f. TXT x79532
f. TXT x79533
f. TXT x79534
f. TXT x79535
f. TXT x79536
f. TXT x79537
f. TXT x79538
f. TXT x79539
f. TXT x79540
f. TXT x79541
f. TXT x79542
f. TXT x79543
f. TXT x79544
f. TXT x79545
f. TXT x79546
f. TXT x79547
f. TXT x79548
f. TXT x79549
f. TXT x79550
f. TXT x79551
axx*.*-. TXT abzy
f. TXT x79553
f. TXT x79554
f. TXT x79555
f. TXT x79556
f. TXT x79557
f. TXT x79558
f. TXT x79559
f. TXT x79560
f. TXT x79561
f. TXT x79562
f. TXT x79563
f. TXT x79564
f. TXT x79565
f. TXT x79566
f. TXT x79567
f. TXT x79568
f. TXT x79569
f. TXT x79570
f. TXT x79571
f. TXT x79572
f. TXT x79573
f. TXT x79574
f. TXT x79575
f. TXT x79576
f. TXT x79577
f. TXT x79578
f. TXT x79579
f. TXT x79580
f. TXT x79581
f. TXT x79582
f. TXT x79583
f. TXT x79584
f. TXT x79585
f. TXT x79586
f. TXT x79587
f. TXT x79588
f. TXT x79589
f. TXT x79590
f. TXT x79591
f. TXT x79592
f. TXT x79593
f. TXT x79594
f. TXT x79595
f. TXT x79596
f. TXT x79597
f. TXT x79598
f. TXT x79599
f. TXT x79600
f. TXT x79601
f. TXT x79602
f. TXT x79603
f. TXT x79604
f. TXT x79605
f. TXT x79606
f. TXT x79607
f. TXT x79608
f. TXT x79609
f. TXT x79610
f. TXT x79611
f. TXT x79612
f. TXT x79613
f. TXT x79614
f. TXT x79615
 NS y- axz
f. TXT x79617
f. TXT x79618
f. TXT x79619
f. TXT x79620
f. TXT x79621
f. TXT x79622
f. TXT x79623
f. TXT x79624
f. TXT x79625
f. TXT x79626
f. TXT x79627
f. TXT x79628
f. TXT x79629
f. TXT x79630
f. TXT x79631
f. TXT x79632
f. TXT x79633
f. TXT x79634
f. TXT x79635
f. TXT x79636
f. TXT x79637
f. TXT x79638
f. TXT x79639
f. TXT x79640
f. TXT x79641
f. TXT x79642
f. TXT x79643
f. TXT x79644
f. TXT x79645
f. TXT x79646
f. TXT x79647
f. TXT x79648
f. TXT x79649
f. TXT x79650
f. TXT x79651
f. TXT x79652
f. TXT x79653
f. TXT x79654
f. TXT x79655
f. TXT x79656
f. TXT x79657
f. TXT x79658
f. TXT x79659
f. TXT x79660
f. TXT x79661
f. TXT x79662
f. TXT x79663
f. TXT x79664
f. TXT x79665
f. TXT x79666
f. TXT x79667
f. TXT x79668
f. TXT x79669
f. TXT x79670
f. TXT x79671
f. TXT x79672
f. TXT x79673
f. TXT x79674
f. TXT x79675
f. TXT x79676
f. TXT x79677
f. TXT x79678
f. TXT x79679
@ A *z*a
f. TXT x79681
f. TXT x79682
f. TXT x79683
f. TXT x79684
f. TXT x79685
f. TXT x79686
f. TXT x79687
f. TXT x79688
f. TXT x79689
f. TXT x79690
f. TXT x79691
f. TXT x79692
f. TXT x79693
f. TXT x79694
f. TXT x79695
f. TXT x79696
f. TXT x79697
f. TXT x79698
f. TXT x79699
f. TXT x79700
f. TXT x79701
f. TXT x79702
f. TXT x79703
f. TXT x79704
f. TXT x79705
f. TXT x79706
f. TXT x79707
f. TXT x79708
f. TXT x79709
f. TXT x79710
f. TXT x79711
f. TXT x79712
f. TXT x79713
f. TXT x79714
f. TXT x79715
f. TXT x79716
f. TXT x79717
f. TXT x79718
f. TXT x79719
f. TXT x79720
f. TXT x79721
f. TXT x79722
f. TXT x79723
f. TXT x79724
f. TXT x79725
f. TXT x79726
f. TXT x79727
f. TXT x79728
f. TXT x79729
f. TXT x79730
f. TXT x79731
f. TXT x79732
f. TXT x79733
f. TXT x79734
f. TXT x79735
f. TXT x79736
f. TXT x79737
f. TXT x79738
f. TXT x79739
f. TXT x79740
f. TXT x79741
f. TXT x79742
f. TXT x79743
$TTL 52470321
f. TXT x79745
f. TXT x79746
f. TXT x79747
f. TXT x79748
f. TXT x79749
f. TXT x79750
f. TXT x79751
f. TXT x79752
f. TXT x79753
f. TXT x79754
f. TXT x79755
f. TXT x79756
f. TXT x79757
f. TXT x79758
f. TXT x79759
f. TXT x79760
f. TXT x79761
f. TXT x79762
f. TXT x79763
f. TXT x79764
f. TXT x79765
f. TXT x79766
f. TXT x79767
f. TXT x79768
f. TXT x79769
f. TXT x79770
f. TXT x79771
f. TXT x79772
f. TXT x79773
f. TXT x79774
f. TXT x79775
f. TXT x79776
f. TXT x79777
f. TXT x79778
f. TXT x79779
f. TXT x79780
f. TXT x79781
f. TXT x79782
f. TXT x79783
f. TXT x79784
f. TXT x79785
f. TXT x79786
f. TXT x79787
f. TXT x79788
f. TXT x79789
f. TXT x79790
f. TXT x79791
f. TXT x79792
f. TXT x79793
f. TXT x79794
f. TXT x79795
f. TXT x79796
f. TXT x79797
f. TXT x79798
f. TXT x79799
f. TXT x79800
f. TXT x79801
f. TXT x79802
f. TXT x79803
f. TXT x79804
f. TXT x79805
f. TXT x79806
f. TXT x79807
; z
f. TXT x79809
f. TXT x79810
f. TXT x79811
f. TXT x79812
f. TXT x79813
f. TXT x79814
f. TXT x79815
f. TXT x79816
f. TXT x79817
f. TXT x79818
f. TXT x79819
f. TXT x79820
f. TXT x79821
f. TXT x79822
f. TXT x79823
f. TXT x79824
f. TXT x79825
f. TXT x79826
f. TXT x79827
f. TXT x79828
f. TXT x79829
f. TXT x79830
f. TXT x79831
f. TXT x79832
f. TXT x79833
f. TXT x79834
f. TXT x79835
f. TXT x79836
f. TXT x79837
f. TXT x79838
f. TXT x79839
f. TXT x79840
f. TXT x79841
f. TXT x79842
f. TXT x79843
f. TXT x79844
f. TXT x79845
f. TXT x79846
f. TXT x79847
f. TXT x79848
f. TXT x79849
f. TXT x79850
f. TXT x79851
f. TXT x79852
f. TXT x79853
f. TXT x79854
f. TXT x79855
f. TXT x79856
f. TXT x79857
f. TXT x79858
f. TXT x79859
f. TXT x79860
f. TXT x79861
f. TXT x79862
f. TXT x79863
f. TXT x79864
f. TXT x79865
f. TXT x79866
f. TXT x79867
f. TXT x79868
f. TXT x79869
f. TXT x79870
f. TXT x79871
*czx. TXT ca a*
f. TXT x79873
f. TXT x79874
f. TXT x79875
f. TXT x79876
f. TXT x79877
f. TXT x79878
f. TXT x79879
f. TXT x79880
f. TXT x79881
f. TXT x79882
f. TXT x79883
f. TXT x79884
f. TXT x79885
f. TXT x79886
f. TXT x79887
f. TXT x79888
f. TXT x79889
f. TXT x79890
f. TXT x79891
f. TXT x79892
f. TXT x79893
f. TXT x79894
f. TXT x79895
f. TXT x79896
f. TXT x79897
f. TXT x79898
f. TXT x79899
f. TXT x79900
f. TXT x79901
f. TXT x79902
f. TXT x79903
f. TXT x79904
f. TXT x79905
f. TXT x79906
f. TXT x79907
f. TXT x79908
f. TXT x79909
f. TXT x79910
f. TXT x79911
f. TXT x79912
f. TXT x79913
f. TXT x79914
f. TXT x79915
f. TXT x79916
f. TXT x79917
f. TXT x79918
f. TXT x79919
f. TXT x79920
f. TXT x79921
f. TXT x79922
f. TXT x79923
f. TXT x79924
f. TXT x79925
f. TXT x79926
f. TXT x79927
f. TXT x79928
f. TXT x79929
f. TXT x79930
f. TXT x79931
f. TXT x79932
f. TXT x79933
f. TXT x79934
f. TXT x79935
aaxx. TXT -
f. TXT x79937
f. TXT x79938
f. TXT x79939
f. TXT x79940
f. TXT x79941
f. TXT x79942
f. TXT x79943
f. TXT x79944
f. TXT x79945
f. TXT x79946
f. TXT x79947
f. TXT x79948
f. TXT x79949
f. TXT x79950
f. TXT x79951
f. TXT x79952
f. TXT x79953
f. TXT x79954
f. TXT x79955
f. TXT x79956
f. TXT x79957
f. TXT x79958
f. TXT x79959
f. TXT x79960
f. TXT x79961
f. TXT x79962
f. TXT x79963
f. TXT x79964
f. TXT x79965
f. TXT x79966
f. TXT x79967
f. TXT x79968
f. TXT x79969
f. TXT x79970
f. TXT x79971
f. TXT x79972
f. TXT x79973
f. TXT x79974
f. TXT x79975
f. TXT x79976
f. TXT x79977
f. TXT x79978
f. TXT x79979
f. TXT x79980
f. TXT x79981
f. TXT x79982
f. TXT x79983
f. TXT x79984
f. TXT x79985
f. TXT x79986
f. TXT x79987
f. TXT x79988
f. TXT x79989
f. TXT x79990
f. TXT x79991
f. TXT x79992
f. TXT x79993
f. TXT x79994
f. TXT x79995
f. TXT x79996
f. TXT x79997
f. TXT x79998
f. TXT x79999
@ NS zca* 000c
f. TXT x80001
f. TXT x80002
f. TXT x80003
f. TXT x80004
f. TXT x80005
f. TXT x80006
f. TXT x80007
f. TXT x80008
f. TXT x80009
f. TXT x80010
f. TXT x80011
f. TXT x80012
f. TXT x80013
f. TXT x80014
f. TXT x80015
f. TXT x80016
f. TXT x80017
f. TXT x80018
f. TXT x80019
f. TXT x80020
f. TXT x80021
f. TXT x80022
f. TXT x80023
f. TXT x80024
f. TXT x80025
f. TXT x80026
f. TXT x80027
f. TXT x80028
f. TXT x80029
f. TXT x80030
f. TXT x80031
f. TXT x80032
f. TXT x80033
f. TXT x80034
f. TXT x80035
f. TXT x80036
f. TXT x80037
f. TXT x80038
f. TXT x80039
f. TXT x80040
f. TXT x80041
f. TXT x80042
f. TXT x80043
f. TXT x80044
f. TXT x80045
f. TXT x80046
f. TXT x80047
f. TXT x80048
f. TXT x80049
f. TXT x80050
f. TXT x80051
f. TXT x80052
f. TXT x80053
f. TXT x80054
f. TXT x80055
f. TXT x80056
f. TXT x80057
f. TXT x80058
f. TXT x80059
f. TXT x80060
f. TXT x80061
f. TXT x80062
f. TXT x80063
 TXT b- c0b
f. TXT x80065
f. TXT x80066
f. TXT x80067
f. TXT x80068
f. TXT x80069
f. TXT x80070
f. TXT x80071
f. TXT x80072
f. TXT x80073
f. TXT x80074
f. TXT x80075
f. TXT x80076
f. TXT x80077
f. TXT x80078
f. TXT x80079
f. TXT x80080
f. TXT x80081
f. TXT x80082
f. TXT x80083
f. TXT x80084
f. TXT x80085
f. TXT x80086
f. TXT x80087
f. TXT x80088
f. TXT x80089
f. TXT x80090
f. TXT x80091
f. TXT x80092
f. TXT x80093
f. TXT x80094
f. TXT x80095
f. TXT x80096
f. TXT x80097
f. TXT x80098
f. TXT x80099
f. TXT x80100
f. TXT x80101
f. TXT x80102
f. TXT x80103
f. TXT x80104
f. TXT x80105
f. TXT x80106
f. TXT x80107
f. TXT x80108
f. TXT x80109
f. TXT x80110
f. TXT x80111
f. TXT x80112
f. TXT x80113
f. TXT x80114
f. TXT x80115
f. TXT x80116
f. TXT x80117
f. TXT x80118
f. TXT x80119
f. TXT x80120
f. TXT x80121
f. TXT x80122
f. TXT x80123
f. TXT x80124
f. TXT x80125
f. TXT x80126
f. TXT x80127
@ NS **
f. TXT x80129
f. TXT x80130
f. TXT x80131
f. TXT x80132
f. TXT x80133
f. TXT x80134
f. TXT x80135
f. TXT x80136
f. TXT x80137
f. TXT x80138
f. TXT x80139
f. TXT x80140
f. TXT x80141
f. TXT x80142
f. TXT x80143
f. TXT x80144
f. TXT x80145
f. TXT x80146
f. TXT x80147
f. TXT x80148
f. TXT x80149
f. TXT x80150
f. TXT x80151
f. TXT x80152
f. TXT x80153
f. TXT x80154
f. TXT x80155
f. TXT x80156
f. TXT x80157
f. TXT x80158
f. TXT x80159
f. TXT x80160
f. TXT x80161
f. TXT x80162
f. TXT x80163
f. TXT x80164
f. TXT x80165
f. TXT x80166
f. TXT x80167
f. TXT x80168
f. TXT x80169
f. TXT x80170
f. TXT x80171
f. TXT x80172
f. TXT x80173
f. TXT x80174
f. TXT x80175
f. TXT x80176
f. TXT x80177
f. TXT x80178
f. TXT x80179
f. TXT x80180
f. TXT x80181
f. TXT x80182
f. TXT x80183
f. TXT x80184
f. TXT x80185
f. TXT x80186
f. TXT x80187
f. TXT x80188
f. TXT x80189
f. TXT x80190
f. TXT x80191
 A ** *c
f. TXT x80193
f. TXT x80194
f. TXT x80195
f. TXT x80196
f. TXT x80197
f. TXT x80198
f. TXT x80199
f. TXT x80200
f. TXT x80201
f. TXT x80202
f. TXT x80203
f. TXT x80204
f. TXT x80205
f. TXT x80206
f. TXT x80207
f. TXT x80208
f. TXT x80209
f. TXT x80210
f. TXT x80211
f. TXT x80212
f. TXT x80213
f. TXT x80214
f. TXT x80215
f. TXT x80216
f. TXT x80217
f. TXT x80218
f. TXT x80219
f. TXT x80220
f. TXT x80221
f. TXT x80222
f. TXT x80223
f. TXT x80224
f. TXT x80225
f. TXT x80226
f. TXT x80227
f. TXT x80228
f. TXT x80229
f. TXT x80230
f. TXT x80231
f. TXT x80232
f. TXT x80233
f. TXT x80234
f. TXT x80235
f. TXT x80236
f. TXT x80237
f. TXT x80238
f. TXT x80239
f. TXT x80240
f. TXT x80241
f. TXT x80242
f. TXT x80243
f. TXT x80244
f. TXT x80245
f. TXT x80246
f. TXT x80247
f. TXT x80248
f. TXT x80249
f. TXT x80250
f. TXT x80251
f. TXT x80252
f. TXT x80253
f. TXT x80254
f. TXT x80255
 NS zcx- xc
f. TXT x80257
f. TXT x80258
f. TXT x80259
f. TXT x80260
f. TXT x80261
f. TXT x80262
f. TXT x80263
f. TXT x80264
f. TXT x80265
f. TXT x80266
f. TXT x80267
f. TXT x80268
f. TXT x80269
f. TXT x80270
f. TXT x80271
f. TXT x80272
f. TXT x80273
f. TXT x80274
f. TXT x80275
f. TXT x80276
f. TXT x80277
f. TXT x80278
f. TXT x80279
f. TXT x80280
f. TXT x80281
f. TXT x80282
f. TXT x80283
f. TXT x80284
f. TXT x80285
f. TXT x80286
f. TXT x80287
f. TXT x80288
f. TXT x80289
f. TXT x80290
f. TXT x80291
f. TXT x80292
f. TXT x80293
f. TXT x80294
f. TXT x80295
f. TXT x80296
f. TXT x80297
f. TXT x80298
f. TXT x80299
f. TXT x80300
f. TXT x80301
f. TXT x80302
f. TXT x80303
f. TXT x80304
f. TXT x80305
f. TXT x80306
f. TXT x80307
f. TXT x80308
f. TXT x80309
f. TXT x80310
f. TXT x80311
f. TXT x80312
f. TXT x80313
f. TXT x80314
f. TXT x80315
f. TXT x80316
f. TXT x80317
f. TXT x80318
f. TXT x80319
 TXT z- 0y*
f. TXT x80321
f. TXT x80322
f. TXT x80323
f. TXT x80324
f. TXT x80325
f. TXT x80326
f. TXT x80327
f. TXT x80328
f. TXT x80329
f. TXT x80330
f. TXT x80331
f. TXT x80332
f. TXT x80333
f. TXT x80334
f. TXT x80335
f. TXT x80336
f. TXT x80337
f. TXT x80338
f. TXT x80339
f. TXT x80340
f. TXT x80341
f. TXT x80342
f. TXT x80343
f. TXT x80344
f. TXT x80345
f. TXT x80346
f. TXT x80347
f. TXT x80348
f. TXT x80349
f. TXT x80350
f. TXT x80351
f. TXT x80352
f. TXT x80353
f. TXT x80354
f. TXT x80355
f. TXT x80356
f. TXT x80357
f. TXT x80358
f. TXT x80359
f. TXT x80360
f. TXT x80361
f. TXT x80362
f. TXT x80363
f. TXT x80364
f. TXT x80365
f. TXT x80366
f. TXT x80367
f. TXT x80368
f. TXT x80369
f. TXT x80370
f. TXT x80371
f. TXT x80372
f. TXT x80373
f. TXT x80374
f. TXT x80375
f. TXT x80376
f. TXT x80377
f. TXT x80378
f. TXT x80379
f. TXT x80380
f. TXT x80381
f. TXT x80382
f. TXT x80383
bcxx. A -y ycy axy
f. TXT x80385
f. TXT x80386
f. TXT x80387
f. TXT x80388
f. TXT x80389
f. TXT x80390
f. TXT x80391
f. TXT x80392
f. TXT x80393
f. TXT x80394
f. TXT x80395
f. TXT x80396
f. TXT x80397
f. TXT x80398
f. TXT x80399
f. TXT x80400
f. TXT x80401
f. TXT x80402
f. TXT x80403
f. TXT x80404
f. TXT x80405
f. TXT x80406
f. TXT x80407
f. TXT x80408
f. TXT x80409
f. TXT x80410
f. TXT x80411
f. TXT x80412
f. TXT x80413
f. TXT x80414
f. TXT x80415
f. TXT x80416
f. TXT x80417
f. TXT x80418
f. TXT x80419
f. TXT x80420
f. TXT x80421
f. TXT x80422
f. TXT x80423
f. TXT x80424
f. TXT x80425
f. TXT x80426
f. TXT x80427
f. TXT x80428
f. TXT x80429
f. TXT x80430
f. TXT x80431
f. TXT x80432
f. TXT x80433
f. TXT x80434
f. TXT x80435
f. TXT x80436
f. TXT x80437
f. TXT x80438
f. TXT x80439
f. TXT x80440
f. TXT x80441
f. TXT x80442
f. TXT x80443
f. TXT x80444
f. TXT x80445
f. TXT x80446
f. TXT x80447
0cac A bx xz xy-
f. TXT x80449
f. TXT x80450
f. TXT x80451
f. TXT x80452
f. TXT x80453
f. TXT x80454
f. TXT x80455
f. TXT x80456
f. TXT x80457
f. TXT x80458
f. TXT x80459
f. TXT x80460
f. TXT x80461
f. TXT x80462
f. TXT x80463
f. TXT x80464
f. TXT x80465
f. TXT x80466
f. TXT x80467
f. TXT x80468
f. TXT x80469
f. TXT x80470
f. TXT x80471
f. TXT x80472
f. TXT x80473
f. TXT x80474
f. TXT x80475
f. TXT x80476
f. TXT x80477
f. TXT x80478
f. TXT x80479
f. TXT x80480
f. TXT x80481
f. TXT x80482
f. TXT x80483
f. TXT x80484
f. TXT x80485
f. TXT x80486
f. TXT x80487
f. TXT x80488
f. TXT x80489
f. TXT x80490
f. TXT x80491
f. TXT x80492
f. TXT x80493
f. TXT x80494
f. TXT x80495
f. TXT x80496
f. TXT x80497
f. TXT x80498
f. TXT x80499
f. TXT x80500
f. TXT x80501
f. TXT x80502
f. TXT x80503
f. TXT x80504
f. TXT x80505
f. TXT x80506
f. TXT x80507
f. TXT x80508
f. TXT x80509
f. TXT x80510
f. TXT x80511
 A c-c* -b0
f. TXT x80513
f. TXT x80514
f. TXT x80515
f. TXT x80516
f. TXT x80517
f. TXT x80518
f. TXT x80519
f. TXT x80520
f. TXT x80521
f. TXT x80522
f. TXT x80523
f. TXT x80524
f. TXT x80525
f. TXT x80526
f. TXT x80527
f. TXT x80528
f. TXT x80529
f. TXT x80530
f. TXT x80531
f. TXT x80532
f. TXT x80533
f. TXT x80534
f. TXT x80535
f. TXT x80536
f. TXT x80537
f. TXT x80538
f. TXT x80539
f. TXT x80540
f. TXT x80541
f. TXT x80542
f. TXT x80543
f. TXT x80544
f. TXT x80545
f. TXT x80546
f. TXT x80547
f. TXT x80548
f. TXT x80549
f. TXT x80550
f. TXT x80551
f. TXT x80552
f. TXT x80553
f. TXT x80554
f. TXT x80555
f. TXT x80556
f. TXT x80557
f. TXT x80558
f. TXT x80559
f. TXT x80560
f. TXT x80561
f. TXT x80562
f. TXT x80563
f. TXT x80564
f. TXT x80565
f. TXT x80566
f. TXT x80567
f. TXT x80568
f. TXT x80569
f. TXT x80570
f. TXT x80571
f. TXT x80572
f. TXT x80573
f. TXT x80574
f. TXT x80575
00. TXT ab bzcb
f. TXT x80577
f. TXT x80578
f. TXT x80579
f. TXT x80580
f. TXT x80581
f. TXT x80582
f. TXT x80583
f. TXT x80584
f. TXT x80585
f. TXT x80586
f. TXT x80587
f. TXT x80588
f. TXT x80589
f. TXT x80590
f. TXT x80591
f. TXT x80592
f. TXT x80593
f. TXT x80594
f. TXT x80595
f. TXT x80596
f. TXT x80597
f. TXT x80598
f. TXT x80599
f. TXT x80600
f. TXT x80601
f. TXT x80602
f. TXT x80603
f. TXT x80604
f. TXT x80605
f. TXT x80606
f. TXT x80607
f. TXT x80608
f. TXT x80609
f. TXT x80610
f. TXT x80611
f. TXT x80612
f. TXT x80613
f. TXT x80614
f. TXT x80615
f. TXT x80616
f. TXT x80617
f. TXT x80618
f. TXT x80619
f. TXT x80620
f. TXT x80621
f. TXT x80622
f. TXT x80623
f. TXT x80624
f. TXT x80625
f. TXT x80626
f. TXT x80627
f. TXT x80628
f. TXT x80629
f. TXT x80630
f. TXT x80631
f. TXT x80632
f. TXT x80633
f. TXT x80634
f. TXT x80635
f. TXT x80636
f. TXT x80637
f. TXT x80638
f. TXT x80639
$ORIGIN z.z.
f. TXT x80641
f. TXT x80642
f. TXT x80643
f. TXT x80644
f. TXT x80645
f. TXT x80646
f. TXT x80647
f. TXT x80648
f. TXT x80649
f. TXT x80650
f. TXT x80651
f. TXT x80652
f. TXT x80653
f. TXT x80654
f. TXT x80655
f. TXT x80656
f. TXT x80657
f. TXT x80658
f. TXT x80659
f. TXT x80660
f. TXT x80661
f. TXT x80662
f. TXT x80663
f. TXT x80664
f. TXT x80665
f. TXT x80666
f. TXT x80667
f. TXT x80668
f. TXT x80669
f. TXT x80670
f. TXT x80671
f. TXT x80672
f. TXT x80673
f. TXT x80674
f. TXT x80675
f. TXT x80676
f. TXT x80677
f. TXT x80678
f. TXT x80679
f. TXT x80680
f. TXT x80681
f. TXT x80682
f. TXT x80683
f. TXT x80684
f. TXT x80685
f. TXT x80686
f. TXT x80687
f. TXT x80688
f. TXT x80689
f. TXT x80690
f. TXT x80691
f. TXT x80692
f. TXT x80693
f. TXT x80694
f. TXT x80695
f. TXT x80696
f. TXT x80697
f. TXT x80698
f. TXT x80699
f. TXT x80700
f. TXT x80701
f. TXT x80702
f. TXT x80703

f. TXT x80705
f. TXT x80706
f. TXT x80707
f. TXT x80708
f. TXT x80709
f. TXT x80710
f. TXT x80711
f. TXT x80712
f. TXT x80713
f. TXT x80714
f. TXT x80715
f. TXT x80716
f. TXT x80717
f. TXT x80718
f. TXT x80719
f. TXT x80720
f. TXT x80721
f. TXT x80722
f. TXT x80723
f. TXT x80724
f. TXT x80725
f. TXT x80726
f. TXT x80727
f. TXT x80728
f. TXT x80729
f. TXT x80730
f. TXT x80731
f. TXT x80732
f. TXT x80733
f. TXT x80734
f. TXT x80735
f. TXT x80736
f. TXT x80737
f. TXT x80738
f. TXT x80739
f. TXT x80740
f. TXT x80741
f. TXT x80742
f. TXT x80743
f. TXT x80744
f. TXT x80745
f. TXT x80746
f. TXT x80747
f. TXT x80748
f. TXT x80749
f. TXT x80750
f. TXT x80751
f. TXT x80752
f. TXT x80753
f. TXT x80754
f. TXT x80755
f. TXT x80756
f. TXT x80757
f. TXT x80758
f. TXT x80759
f. TXT x80760
f. TXT x80761
f. TXT x80762
f. TXT x80763
f. TXT x80764
f. TXT x80765
f. TXT x80766
f. TXT x80767
0a0 NS bc-
f. TXT x80769
f. TXT x80770
f. TXT x80771
f. TXT x80772
f. TXT x80773
f. TXT x80774
f. TXT x80775
f. TXT x80776
f. TXT x80777
f. TXT x80778
f. TXT x80779
f. TXT x80780
f. TXT x80781
f. TXT x80782
f. TXT x80783
f. TXT x80784
f. TXT x80785
f. TXT x80786
f. TXT x80787
f. TXT x80788
f. TXT x80789
f. TXT x80790
f. TXT x80791
f. TXT x80792
f. TXT x80793
f. TXT x80794
f. TXT x80795
f. TXT x80796
f. TXT x80797
f. TXT x80798
f. TXT x80799
f. TXT x80800
f. TXT x80801
f. TXT x80802
f. TXT x80803
f. TXT x80804
f. TXT x80805
f. TXT x80806
f. TXT x80807
f. TXT x80808
f. TXT x80809
f. TXT x80810
f. TXT x80811
f. TXT x80812
f. TXT x80813
f. TXT x80814
f. TXT x80815
f. TXT x80816
f. TXT x80817
f. TXT x80818
f. TXT x80819
f. TXT x80820
f. TXT x80821
f. TXT x80822
f. TXT x80823
f. TXT x80824
f. TXT x80825
f. TXT x80826
f. TXT x80827
f. TXT x80828
f. TXT x80829
f. TXT x80830
f. TXT x80831
; *x
f. TXT x80833
f. TXT x80834
f. TXT x80835
f. TXT x80836
f. TXT x80837
f. TXT x80838
f. TXT x80839
f. TXT x80840
f. TXT x80841
f. TXT x80842
f. TXT x80843
f. TXT x80844
f. TXT x80845
f. TXT x80846
f. TXT x80847
f. TXT x80848
f. TXT x80849
f. TXT x80850
f. TXT x80851
f. TXT x80852
f. TXT x80853
f. TXT x80854
f. TXT x80855
f. TXT x80856
f. TXT x80857
f. TXT x80858
f. TXT x80859
f. TXT x80860
f. TXT x80861
f. TXT x80862
f. TXT x80863
f. TXT x80864
f. TXT x80865
f. TXT x80866
f. TXT x80867
f. TXT x80868
f. TXT x80869
f. TXT x80870
f. TXT x80871
f. TXT x80872
f. TXT x80873
f. TXT x80874
f. TXT x80875
f. TXT x80876
f. TXT x80877
f. TXT x80878
f. TXT x80879
f. TXT x80880
f. TXT x80881
f. TXT x80882
f. TXT x80883
f. TXT x80884
f. TXT x80885
f. TXT x80886
f. TXT x80887
f. TXT x80888
f. TXT x80889
f. TXT x80890
f. TXT x80891
f. TXT x80892
f. TXT x80893
f. TXT x80894
f. TXT x80895
$ORIGIN 0c-c.
f. TXT x80897
f. TXT x80898
f. TXT x80899
f. TXT x80900
f. TXT x80901
f. TXT x80902
f. TXT x80903
f. TXT x80904
f. TXT x80905
f. TXT x80906
f. TXT x80907
f. TXT x80908
f. TXT x80909
f. TXT x80910
f. TXT x80911
f. TXT x80912
f. TXT x80913
f. TXT x80914
f. TXT x80915
f. TXT x80916
f. TXT x80917
f. TXT x80918
f. TXT x80919
f. TXT x80920
f. TXT x80921
f. TXT x80922
f. TXT x80923
f. TXT x80924
f. TXT x80925
f. TXT x80926
f. TXT x80927
f. TXT x80928
f. TXT x80929
f. TXT x80930
f. TXT x80931
f. TXT x80932
f. TXT x80933
f. TXT x80934
f. TXT x80935
f. TXT x80936
f. TXT x80937
f. TXT x80938
f. TXT x80939
f. TXT x80940
f. TXT x80941
f. TXT x80942
f. TXT x80943
f. TXT x80944
f. TXT x80945
f. TXT x80946
f. TXT x80947
f. TXT x80948
f. TXT x80949
f. TXT x80950
f. TXT x80951
f. TXT x80952
f. TXT x80953
f. TXT x80954
f. TXT x80955
f. TXT x80956
f. TXT x80957
f. TXT x80958
f. TXT x80959
$TTL 2147483648
f. TXT x80961
f. TXT x80962
f. TXT x80963
f. TXT x80964
f. TXT x80965
f. TXT x80966
f. TXT x80967
f. TXT x80968
f. TXT x80969
f. TXT x80970
f. TXT x80971
f. TXT x80972
f. TXT x80973
f. TXT x80974
f. TXT x80975
f. TXT x80976
f. TXT x80977
f. TXT x80978
f. TXT x80979
f. TXT x80980
f. TXT x80981
f. TXT x80982
f. TXT x80983
f. TXT x80984
f. TXT x80985
f. TXT x80986
f. TXT x80987
f. TXT x80988
f. TXT x80989
f. TXT x80990
f. TXT x80991
f. TXT x80992
f. TXT x80993
f. TXT x80994
f. TXT x80995
f. TXT x80996
f. TXT x80997
f. TXT x80998
f. TXT x80999
f. TXT x81000
f. TXT x81001
f. TXT x81002
f. TXT x81003
f. TXT x81004
f. TXT x81005
f. TXT x81006
f. TXT x81007
f. TXT x81008
f. TXT x81009
f. TXT x81010
f. TXT x81011
f. TXT x81012
f. TXT x81013
f. TXT x81014
f. TXT x81015
f. TXT x81016
f. TXT x81017
f. TXT x81018
f. TXT x81019
f. TXT x81020
f. TXT x81021
f. TXT x81022
f. TXT x81023
 A y*x
f. TXT x81025
f. TXT x81026
f. TXT x81027
f. TXT x81028
f. TXT x81029
f. TXT x81030
f. TXT x81031
f. TXT x81032
f. TXT x81033
f. TXT x81034
f. TXT x81035
f. TXT x81036
f. TXT x81037
f. TXT x81038
f. TXT x81039
f. TXT x81040
f. TXT x81041
f. TXT x81042
f. TXT x81043
f. TXT x81044
f. TXT x81045
f. TXT x81046
f. TXT x81047
f. TXT x81048
f. TXT x81049
f. TXT x81050
f. TXT x81051
f. TXT x81052
f. TXT x81053
f. TXT x81054
f. TXT x81055
f. TXT x81056
f. TXT x81057
f. TXT x81058
f. TXT x81059
f. TXT x81060
f. TXT x81061
f. TXT x81062
f. TXT x81063
f. TXT x81064
f. TXT x81065
f. TXT x81066
f. TXT x81067
f. TXT x81068
f. TXT x81069
f. TXT x81070
f. TXT x81071
f. TXT x81072
f. TXT x81073
f. TXT x81074
f. TXT x81075
f. TXT x81076
f. TXT x81077
f. TXT x81078
f. TXT x81079
f. TXT x81080
f. TXT x81081
f. TXT x81082
f. TXT x81083
f. TXT x81084
f. TXT x81085
f. TXT x81086
f. TXT x81087

f. TXT x81089
f. TXT x81090
f. TXT x81091
f. TXT x81092
f. TXT x81093
f. TXT x81094
f. TXT x81095
f. TXT x81096
f. TXT x81097
f. TXT x81098
f. TXT x81099
f. TXT x81100
f. TXT x81101
f. TXT x81102
f. TXT x81103
f. TXT x81104
f. TXT x81105
f. TXT x81106
f. TXT x81107
f. TXT x81108
f. TXT x81109
f. TXT x81110
f. TXT x81111
f. TXT x81112
f. TXT x81113
f. TXT x81114
f. TXT x81115
f. TXT x81116
f. TXT x81117
f. TXT x81118
f. TXT x81119
f. TXT x81120
f. TXT x81121
f. TXT x81122
f. TXT x81123
f. TXT x81124
f. TXT x81125
f. TXT x81126
f. TXT x81127
f. TXT x81128
f. TXT x81129
f. TXT x81130
f. TXT x81131
f. TXT x81132
f. TXT x81133
f. TXT x81134
f. TXT x81135
f. TXT x81136
f. TXT x81137
f. TXT x81138
f. TXT x81139
f. TXT x81140
f. TXT x81141
f. TXT x81142
f. TXT x81143
f. TXT x81144
f. TXT x81145
f. TXT x81146
f. TXT x81147
f. TXT x81148
f. TXT x81149
f. TXT x81150
f. TXT x81151
$ORIGIN -y-z.
f. TXT x81153
f. TXT x81154
f. TXT x81155
f. TXT x81156
f. TXT x81157
f. TXT x81158
f. TXT x81159
f. TXT x81160
f. TXT x81161
f. TXT x81162
f. TXT x81163
f. TXT x81164
f. TXT x81165
f. TXT x81166
f. TXT x81167
f. TXT x81168
f. TXT x81169
f. TXT x81170
f. TXT x81171
f. TXT x81172
f. TXT x81173
f. TXT x81174
f. TXT x81175
f. TXT x81176
f. TXT x81177
f. TXT x81178
f. TXT x81179
f. TXT x81180
f. TXT x81181
f. TXT x81182
f. TXT x81183
f. TXT x81184
f. TXT x81185
f. TXT x81186
f. TXT x81187
f. TXT x81188
f. TXT x81189
f. TXT x81190
f. TXT x81191
f. TXT x81192
f. TXT x81193
f. TXT x81194
f. TXT x81195
f. TXT x81196
f. TXT x81197
f. TXT x81198
f. TXT x81199
f. TXT x81200
f. TXT x81201
f. TXT x81202
f. TXT x81203
f. TXT x81204
f. TXT x81205
f. TXT x81206
f. TXT x81207
f. TXT x81208
f. TXT x81209
f. TXT x81210
f. TXT x81211
f. TXT x81212
f. TXT x81213
f. TXT x81214
f. TXT x81215
; y
f. TXT x81217
f. TXT x81218
f. TXT x81219
f. TXT x81220
f. TXT x81221
f. TXT x81222
f. TXT x81223
f. TXT x81224
f. TXT x81225
f. TXT x81226
f. TXT x81227
f. TXT x81228
f. TXT x81229
f. TXT x81230
f. TXT x81231
f. TXT x81232
f. TXT x81233
f. TXT x81234
f. TXT x81235
f. TXT x81236
f. TXT x81237
f. TXT x81238
f. TXT x81239
f. TXT x81240
f. TXT x81241
f. TXT x81242
f. TXT x81243
f. TXT x81244
f. TXT x81245
f. TXT x81246
f. TXT x81247
f. TXT x81248
f. TXT x81249
f. TXT x81250
f. TXT x81251
f. TXT x81252
f. TXT x81253
f. TXT x81254
f. TXT x81255
f. TXT x81256
f. TXT x81257
f. TXT x81258
f. TXT x81259
f. TXT x81260
f. TXT x81261
f. TXT x81262
f. TXT x81263
f. TXT x81264
f. TXT x81265
f. TXT x81266
f. TXT x81267
f. TXT x81268
f. TXT x81269
f. TXT x81270
f. TXT x81271
f. TXT x81272
f. TXT x81273
f. TXT x81274
f. TXT x81275
f. TXT x81276
f. TXT x81277
f. TXT x81278
f. TXT x81279

f. TXT x81281
f. TXT x81282
f. TXT x81283
f. TXT x81284
f. TXT x81285
f. TXT x81286
f. TXT x81287
f. TXT x81288
f. TXT x81289
f. TXT x81290
f. TXT x81291
f. TXT x81292
f. TXT x81293
f. TXT x81294
f. TXT x81295
f. TXT x81296
f. TXT x81297
f. TXT x81298
f. TXT x81299
f. TXT x81300
f. TXT x81301
f. TXT x81302
f. TXT x81303
f. TXT x81304
f. TXT x81305
f. TXT x81306
f. TXT x81307
f. TXT x81308
f. TXT x81309
f. TXT x81310
f. TXT x81311
f. TXT x81312
f. TXT x81313
f. TXT x81314
f. TXT x81315
f. TXT x81316
f. TXT x81317
f. TXT x81318
f. TXT x81319
f. TXT x81320
f. TXT x81321
f. TXT x81322
f. TXT x81323
f. TXT x81324
f. TXT x81325
f. TXT x81326
f. TXT x81327
f. TXT x81328
f. TXT x81329
f. TXT x81330
f. TXT x81331
f. TXT x81332
f. TXT x81333
f. TXT x81334
f. TXT x81335
f. TXT x81336
f. TXT x81337
f. TXT x81338
f. TXT x81339
f. TXT x81340
f. TXT x81341
f. TXT x81342
f. TXT x81343
; bcy-
f. TXT x81345
f. TXT x81346
f. TXT x81347
f. TXT x81348
f. TXT x81349
f. TXT x81350
f. TXT x81351
f. TXT x81352
f. TXT x81353
f. TXT x81354
f. TXT x81355
f. TXT x81356
f. TXT x81357
f. TXT x81358
f. TXT x81359
f. TXT x81360
f. TXT x81361
f. TXT x81362
f. TXT x81363
f. TXT x81364
f. TXT x81365
f. TXT x81366
f. TXT x81367
f. TXT x81368
f. TXT x81369
f. TXT x81370
f. TXT x81371
f. TXT x81372
f. TXT x81373
f. TXT x81374
f. TXT x81375
f. TXT x81376
f. TXT x81377
f. TXT x81378
f. TXT x81379
f. TXT x81380
f. TXT x81381
f. TXT x81382
f. TXT x81383
f. TXT x81384
f. TXT x81385
f. TXT x81386
f. TXT x81387
f. TXT x81388
f. TXT x81389
f. TXT x81390
f. TXT x81391
f. TXT x81392
f. TXT x81393
f. TXT x81394
f. TXT x81395
f. TXT x81396
f. TXT x81397
f. TXT x81398
f. TXT x81399
f. TXT x81400
f. TXT x81401
f. TXT x81402
f. TXT x81403
f. TXT x81404
f. TXT x81405
f. TXT x81406
f. TXT x81407
z0xb TXT * yyy cx-0
f. TXT x81409
f. TXT x81410
f. TXT x81411
f. TXT x81412
f. TXT x81413
f. TXT x81414
f. TXT x81415
f. TXT x81416
f. TXT x81417
f. TXT x81418
f. TXT x81419
f. TXT x81420
f. TXT x81421
f. TXT x81422
f. TXT x81423
f. TXT x81424
f. TXT x81425
f. TXT x81426
f. TXT x81427
f. TXT x81428
f. TXT x81429
f. TXT x81430
f. TXT x81431
f. TXT x81432
f. TXT x81433
f. TXT x81434
f. TXT x81435
f. TXT x81436
f. TXT x81437
f. TXT x81438
f. TXT x81439
f. TXT x81440
f. TXT x81441
f. TXT x81442
f. TXT x81443
f. TXT x81444
f. TXT x81445
f. TXT x81446
f. TXT x81447
f. TXT x81448
f. TXT x81449
f. TXT x81450
f. TXT x81451
f. TXT x81452
f. TXT x81453
f. TXT x81454
f. TXT x81455
f. TXT x81456
f. TXT x81457
f. TXT x81458
f. TXT x81459
f. TXT x81460
f. TXT x81461
f. TXT x81462
f. TXT x81463
f. TXT x81464
f. TXT x81465
f. TXT x81466
f. TXT x81467
f. TXT x81468
f. TXT x81469
f. TXT x81470
f. TXT x81471
ay*a TXT ya caby b-x
f. TXT x81473
f. TXT x81474
f. TXT x81475
f. TXT x81476
f. TXT x81477
f. TXT x81478
f. TXT x81479
f. TXT x81480
f. TXT x81481
f. TXT x81482
f. TXT x81483
f. TXT x81484
f. TXT x81485
f. TXT x81486
f. TXT x81487
f. TXT x81488
f. TXT x81489
f. TXT x81490
f. TXT x81491
f. TXT x81492
f. TXT x81493
f. TXT x81494
f. TXT x81495
f. TXT x81496
f. TXT x81497
f. TXT x81498
f. TXT x81499
f. TXT x81500
f. TXT x81501
f. TXT x81502
f. TXT x81503
f. TXT x81504
f. TXT x81505
f. TXT x81506
f. TXT x81507
f. TXT x81508
f. TXT x81509
f. TXT x81510
f. TXT x81511
f. TXT x81512
f. TXT x81513
f. TXT x81514
f. TXT x81515
f. TXT x81516
f. TXT x81517
f. TXT x81518
f. TXT x81519
f. TXT x81520
f. TXT x81521
f. TXT x81522
f. TXT x81523
f. TXT x81524
f. TXT x81525
f. TXT x81526
f. TXT x81527
f. TXT x81528
f. TXT x81529
f. TXT x81530
f. TXT x81531
f. TXT x81532
f. TXT x81533
f. TXT x81534
f. TXT x81535
0a TXT vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
f. TXT x81537
f. TXT x81538
f. TXT x81539
f. TXT x81540
f. TXT x81541
f. TXT x81542
f. TXT x81543
f. TXT x81544
f. TXT x81545
f. TXT x81546
f. TXT x81547
f. TXT x81548
f. TXT x81549
f. TXT x81550
f. TXT x81551
f. TXT x81552
f. TXT x81553
f. TXT x81554
f. TXT x81555
f. TXT x81556
f. TXT x81557
f. TXT x81558
f. TXT x81559
f. TXT x81560
f. TXT x81561
f. TXT x81562
f. TXT x81563
f. TXT x81564
f. TXT x81565
f. TXT x81566
f. TXT x81567
f. TXT x81568
f. TXT x81569
f. TXT x81570
f. TXT x81571
f. TXT x81572
f. TXT x81573
f. TXT x81574
f. TXT x81575
f. TXT x81576
f. TXT x81577
f. TXT x81578
f. TXT x81579
f. TXT x81580
f. TXT x81581
f. TXT x81582
f. TXT x81583
f. TXT x81584
f. TXT x81585
f. TXT x81586
f. TXT x81587
f. TXT x81588
f. TXT x81589
f. TXT x81590
f. TXT x81591
f. TXT x81592
f. TXT x81593
f. TXT x81594
f. TXT x81595
f. TXT x81596
f. TXT x81597
f. TXT x81598
f. TXT x81599
*-zc TXT - c
f. TXT x81601
f. TXT x81602
f. TXT x81603
f. TXT x81604
f. TXT x81605
f. TXT x81606
f. TXT x81607
f. TXT x81608
f. TXT x81609
f. TXT x81610
f. TXT x81611
f. TXT x81612
f. TXT x81613
f. TXT x81614
f. TXT x81615
f. TXT x81616
f. TXT x81617
f. TXT x81618
f. TXT x81619
f. TXT x81620
f. TXT x81621
f. TXT x81622
f. TXT x81623
f. TXT x81624
f. TXT x81625
f. TXT x81626
f. TXT x81627
f. TXT x81628
f. TXT x81629
f. TXT x81630
f. TXT x81631
f. TXT x81632
f. TXT x81633
f. TXT x81634
f. TXT x81635
f. TXT x81636
f. TXT x81637
f. TXT x81638
f. TXT x81639
f. TXT x81640
f. TXT x81641
f. TXT x81642
f. TXT x81643
f. TXT x81644
f. TXT x81645
f. TXT x81646
f. TXT x81647
f. TXT x81648
f. TXT x81649
f. TXT x81650
f. TXT x81651
f. TXT x81652
f. TXT x81653
f. TXT x81654
f. TXT x81655
f. TXT x81656
f. TXT x81657
f. TXT x81658
f. TXT x81659
f. TXT x81660
f. TXT x81661
f. TXT x81662
f. TXT x81663
a TXT b00 -ca
f. TXT x81665
f. TXT x81666
f. TXT x81667
f. TXT x81668
f. TXT x81669
f. TXT x81670
f. TXT x81671
f. TXT x81672
f. TXT x81673
f. TXT x81674
f. TXT x81675
f. TXT x81676
f. TXT x81677
f. TXT x81678
f. TXT x81679
f. TXT x81680
f. TXT x81681
f. TXT x81682
f. TXT x81683
f. TXT x81684
f. TXT x81685
f. TXT x81686
f. TXT x81687
f. TXT x81688
f. TXT x81689
f. TXT x81690
f. TXT x81691
f. TXT x81692
f. TXT x81693
f. TXT x81694
f. TXT x81695
f. TXT x81696
f. TXT x81697
f. TXT x81698
f. TXT x81699
f. TXT x81700
f. TXT x81701
f. TXT x81702
f. TXT x81703
f. TXT x81704
f. TXT x81705
f. TXT x81706
f. TXT x81707
f. TXT x81708
f. TXT x81709
f. TXT x81710
f. TXT x81711
f. TXT x81712
f. TXT x81713
f. TXT x81714
f. TXT x81715
f. TXT x81716
f. TXT x81717
f. TXT x81718
f. TXT x81719
f. TXT x81720
f. TXT x81721
f. TXT x81722
f. TXT x81723
f. TXT x81724
f. TXT x81725
f. TXT x81726
f. TXT x81727
@ A 0yy *xax
f. TXT x81729
f. TXT x81730
f. TXT x81731
f. TXT x81732
f. TXT x81733
f. TXT x81734
f. TXT x81735
f. TXT x81736
f. TXT x81737
f. TXT x81738
f. TXT x81739
f. TXT x81740
f. TXT x81741
f. TXT x81742
f. TXT x81743
f. TXT x81744
f. TXT x81745
f. TXT x81746
f. TXT x81747
f. TXT x81748
f. TXT x81749
f. TXT x81750
f. TXT x81751
f. TXT x81752
f. TXT x81753
f. TXT x81754
f. TXT x81755
f. TXT x81756
f. TXT x81757
f. TXT x81758
f. TXT x81759
f. TXT x81760
f. TXT x81761
f. TXT x81762
f. TXT x81763
f. TXT x81764
f. TXT x81765
f. TXT x81766
f. TXT x81767
f. TXT x81768
f. TXT x81769
f. TXT x81770
f. TXT x81771
f. TXT x81772
f. TXT x81773
f. TXT x81774
f. TXT x81775
f. TXT x81776
f. TXT x81777
f. TXT x81778
f. TXT x81779
f. TXT x81780
f. TXT x81781
f. TXT x81782
f. TXT x81783
f. TXT x81784
f. TXT x81785
f. TXT x81786
f. TXT x81787
f. TXT x81788
f. TXT x81789
f. TXT x81790
f. TXT x81791
0 TXT zy*
f. TXT x81793
f. TXT x81794
f. TXT x81795
f. TXT x81796
f. TXT x81797
f. TXT x81798
f. TXT x81799
f. TXT x81800
f. TXT x81801
f. TXT x81802
f. TXT x81803
f. TXT x81804
f. TXT x81805
f. TXT x81806
f. TXT x81807
f. TXT x81808
f. TXT x81809
f. TXT x81810
f. TXT x81811
f. TXT x81812
f. TXT x81813
f. TXT x81814
f. TXT x81815
f. TXT x81816
f. TXT x81817
f. TXT x81818
f. TXT x81819
f. TXT x81820
f. TXT x81821
f. TXT x81822
f. TXT x81823
f. TXT x81824
f. TXT x81825
f. TXT x81826
f. TXT x81827
f. TXT x81828
f. TXT x81829
f. TXT x81830
f. TXT x81831
f. TXT x81832
f. TXT x81833
f. TXT x81834
f. TXT x81835
f. TXT x81836
f. TXT x81837
f. TXT x81838
f. TXT x81839
f. TXT x81840
f. TXT x81841
f. TXT x81842
f. TXT x81843
f. TXT x81844
f. TXT x81845
f. TXT x81846
f. TXT x81847
f. TXT x81848
f. TXT x81849
f. TXT x81850
f. TXT x81851
f. TXT x81852
f. TXT x81853
f. TXT x81854
f. TXT x81855
$ORIGIN *a.0**.
f. TXT x81857
f. TXT x81858
f. TXT x81859
f. TXT x81860
f. TXT x81861
f. TXT x81862
f. TXT x81863
f. TXT x81864
f. TXT x81865
f. TXT x81866
f. TXT x81867
f. TXT x81868
f. TXT x81869
f. TXT x81870
f. TXT x81871
f. TXT x81872
f. TXT x81873
f. TXT x81874
f. TXT x81875
f. TXT x81876
f. TXT x81877
f. TXT x81878
f. TXT x81879
f. TXT x81880
f. TXT x81881
f. TXT x81882
f. TXT x81883
f. TXT x81884
f. TXT x81885
f. TXT x81886
f. TXT x81887
f. TXT x81888
f. TXT x81889
f. TXT x81890
f. TXT x81891
f. TXT x81892
f. TXT x81893
f. TXT x81894
f. TXT x81895
f. TXT x81896
f. TXT x81897
f. TXT x81898
f. TXT x81899
f. TXT x81900
f. TXT x81901
f. TXT x81902
f. TXT x81903
f. TXT x81904
f. TXT x81905
f. TXT x81906
f. TXT x81907
f. TXT x81908
f. TXT x81909
f. TXT x81910
f. TXT x81911
f. TXT x81912
f. TXT x81913
f. TXT x81914
f. TXT x81915
f. TXT x81916
f. TXT x81917
f. TXT x81918
f. TXT x81919
 NS a a-
f. TXT x81921
f. TXT x81922
f. TXT x81923
f. TXT x81924
f. TXT x81925
f. TXT x81926
f. TXT x81927
f. TXT x81928
f. TXT x81929
f. TXT x81930
f. TXT x81931
f. TXT x81932
f. TXT x81933
f. TXT x81934
f. TXT x81935
f. TXT x81936
f. TXT x81937
f. TXT x81938
f. TXT x81939
f. TXT x81940
f. TXT x81941
f. TXT x81942
f. TXT x81943
f. TXT x81944
f. TXT x81945
f. TXT x81946
f. TXT x81947
f. TXT x81948
f. TXT x81949
f. TXT x81950
f. TXT x81951
f. TXT x81952
f. TXT x81953
f. TXT x81954
f. TXT x81955
f. TXT x81956
f. TXT x81957
f. TXT x81958
f. TXT x81959
f. TXT x81960
f. TXT x81961
f. TXT x81962
f. TXT x81963
f. TXT x81964
f. TXT x81965
f. TXT x81966
f. TXT x81967
f. TXT x81968
f. TXT x81969
f. TXT x81970
f. TXT x81971
f. TXT x81972
f. TXT x81973
f. TXT x81974
f. TXT x81975
f. TXT x81976
f. TXT x81977
f. TXT x81978
f. TXT x81979
f. TXT x81980
f. TXT x81981
f. TXT x81982
f. TXT x81983
@ TXT x x-a zb0*
f. TXT x81985
f. TXT x81986
f. TXT x81987
f. TXT x81988
f. TXT x81989
f. TXT x81990
f. TXT x81991
f. TXT x81992
f. TXT x81993
f. TXT x81994
f. TXT x81995
f. TXT x81996
f. TXT x81997
f. TXT x81998
f. TXT x81999
f. TXT x82000
f. TXT x82001
f. TXT x82002
f. TXT x82003
f. TXT x82004
f. TXT x82005
f. TXT x82006
f. TXT x82007
f. TXT x82008
f. TXT x82009
f. TXT x82010
f. TXT x82011
f. TXT x82012
f. TXT x82013
f. TXT x82014
f. TXT x82015
f. TXT x82016
f. TXT x82017
f. TXT x82018
f. TXT x82019
f. TXT x82020
f. TXT x82021
f. TXT x82022
f. TXT x82023
f. TXT x82024
f. TXT x82025
f. TXT x82026
f. TXT x82027
f. TXT x82028
f. TXT x82029
f. TXT x82030
f. TXT x82031
f. TXT x82032
f. TXT x82033
f. TXT x82034
f. TXT x82035
f. TXT x82036
f. TXT x82037
f. TXT x82038
f. TXT x82039
f. TXT x82040
f. TXT x82041
f. TXT x82042
f. TXT x82043
f. TXT x82044
f. TXT x82045
f. TXT x82046
f. TXT x82047

f. TXT x82049
f. TXT x82050
f. TXT x82051
f. TXT x82052
f. TXT x82053
f. TXT x82054
f. TXT x82055
f. TXT x82056
f. TXT x82057
f. TXT x82058
f. TXT x82059
f. TXT x82060
f. TXT x82061
f. TXT x82062
f. TXT x82063
f. TXT x82064
f. TXT x82065
f. TXT x82066
f. TXT x82067
f. TXT x82068
f. TXT x82069
f. TXT x82070
f. TXT x82071
f. TXT x82072
f. TXT x82073
f. TXT x82074
f. TXT x82075
f. TXT x82076
f. TXT x82077
f. TXT x82078
f. TXT x82079
f. TXT x82080
f. TXT x82081
f. TXT x82082
f. TXT x82083
f. TXT x82084
f. TXT x82085
f. TXT x82086
f. TXT x82087
f. TXT x82088
f. TXT x82089
f. TXT x82090
f. TXT x82091
f. TXT x82092
f. TXT x82093
f. TXT x82094
f. TXT x82095
f. TXT x82096
f. TXT x82097
f. TXT x82098
f. TXT x82099
f. TXT x82100
f. TXT x82101
f. TXT x82102
f. TXT x82103
f. TXT x82104
f. TXT x82105
f. TXT x82106
f. TXT x82107
f. TXT x82108
f. TXT x82109
f. TXT x82110
f. TXT x82111
$TTL 518637
f. TXT x82113
f. TXT x82114
f. TXT x82115
f. TXT x82116
f. TXT x82117
f. TXT x82118
f. TXT x82119
f. TXT x82120
f. TXT x82121
f. TXT x82122
f. TXT x82123
f. TXT x82124
f. TXT x82125
f. TXT x82126
f. TXT x82127
f. TXT x82128
f. TXT x82129
f. TXT x82130
f. TXT x82131
f. TXT x82132
f. TXT x82133
f. TXT x82134
f. TXT x82135
f. TXT x82136
f. TXT x82137
f. TXT x82138
f. TXT x82139
f. TXT x82140
f. TXT x82141
f. TXT x82142
f. TXT x82143
f. TXT x82144
f. TXT x82145
f. TXT x82146
f. TXT x82147
f. TXT x82148
f. TXT x82149
f. TXT x82150
f. TXT x82151
f. TXT x82152
f. TXT x82153
f. TXT x82154
f. TXT x82155
f. TXT x82156
f. TXT x82157
f. TXT x82158
f. TXT x82159
f. TXT x82160
f. TXT x82161
f. TXT x82162
f. TXT x82163
f. TXT x82164
f. TXT x82165
f. TXT x82166
f. TXT x82167
f. TXT x82168
f. TXT x82169
f. TXT x82170
f. TXT x82171
f. TXT x82172
f. TXT x82173
f. TXT x82174
f. TXT x82175
 A b
f. TXT x82177
f. TXT x82178
f. TXT x82179
f. TXT x82180
f. TXT x82181
f. TXT x82182
f. TXT x82183
f. TXT x82184
f. TXT x82185
f. TXT x82186
f. TXT x82187
f. TXT x82188
f. TXT x82189
f. TXT x82190
f. TXT x82191
f. TXT x82192
f. TXT x82193
f. TXT x82194
f. TXT x82195
f. TXT x82196
f. TXT x82197
f. TXT x82198
f. TXT x82199
f. TXT x82200
f. TXT x82201
f. TXT x82202
f. TXT x82203
f. TXT x82204
f. TXT x82205
f. TXT x82206
f. TXT x82207
f. TXT x82208
f. TXT x82209
f. TXT x82210
f. TXT x82211
f. TXT x82212
f. TXT x82213
f. TXT x82214
f. TXT x82215
f. TXT x82216
f. TXT x82217
f. TXT x82218
f. TXT x82219
f. TXT x82220
f. TXT x82221
f. TXT x82222
f. TXT x82223
f. TXT x82224
f. TXT x82225
f. TXT x82226
f. TXT x82227
f. TXT x82228
f. TXT x82229
f. TXT x82230
f. TXT x82231
f. TXT x82232
f. TXT x82233
f. TXT x82234
f. TXT x82235
f. TXT x82236
f. TXT x82237
f. TXT x82238
f. TXT x82239
z*. A y x-- 0
f. TXT x82241
f. TXT x82242
f. TXT x82243
f. TXT x82244
f. TXT x82245
f. TXT x82246
f. TXT x82247
f. TXT x82248
f. TXT x82249
f. TXT x82250
f. TXT x82251
f. TXT x82252
f. TXT x82253
f. TXT x82254
f. TXT x82255
f. TXT x82256
f. TXT x82257
f. TXT x82258
f. TXT x82259
f. TXT x82260
f. TXT x82261
f. TXT x82262
f. TXT x82263
f. TXT x82264
f. TXT x82265
f. TXT x82266
f. TXT x82267
f. TXT x82268
f. TXT x82269
f. TXT x82270
f. TXT x82271
f. TXT x82272
f. TXT x82273
f. TXT x82274
f. TXT x82275
f. TXT x82276
f. TXT x82277
f. TXT x82278
f. TXT x82279
f. TXT x82280
f. TXT x82281
f. TXT x82282
f. TXT x82283
f. TXT x82284
f. TXT x82285
f. TXT x82286
f. TXT x82287
f. TXT x82288
f. TXT x82289
f. TXT x82290
f. TXT x82291
f. TXT x82292
f. TXT x82293
f. TXT x82294
f. TXT x82295
f. TXT x82296
f. TXT x82297
f. TXT x82298
f. TXT x82299
f. TXT x82300
f. TXT x82301
f. TXT x82302
f. TXT x82303
$TTL 196
f. TXT x82305
f. TXT x82306
f. TXT x82307
f. TXT x82308
f. TXT x82309
f. TXT x82310
f. TXT x82311
f. TXT x82312
f. TXT x82313
f. TXT x82314
f. TXT x82315
f. TXT x82316
f. TXT x82317
f. TXT x82318
f. TXT x82319
f. TXT x82320
f. TXT x82321
f. TXT x82322
f. TXT x82323
f. TXT x82324
f. TXT x82325
f. TXT x82326
f. TXT x82327
f. TXT x82328
f. TXT x82329
f. TXT x82330
f. TXT x82331
f. TXT x82332
f. TXT x82333
f. TXT x82334
f. TXT x82335
f. TXT x82336
f. TXT x82337
f. TXT x82338
f. TXT x82339
f. TXT x82340
f. TXT x82341
f. TXT x82342
f. TXT x82343
f. TXT x82344
f. TXT x82345
f. TXT x82346
f. TXT x82347
f. TXT x82348
f. TXT x82349
f. TXT x82350
f. TXT x82351
f. TXT x82352
f. TXT x82353
f. TXT x82354
f. TXT x82355
f. TXT x82356
f. TXT x82357
f. TXT x82358
f. TXT x82359
f. TXT x82360
f. TXT x82361
f. TXT x82362
f. TXT x82363
f. TXT x82364
f. TXT x82365
f. TXT x82366
f. TXT x82367
 TXT 0 yz0b
f. TXT x82369
f. TXT x82370
f. TXT x82371
f. TXT x82372
f. TXT x82373
f. TXT x82374
f. TXT x82375
f. TXT x82376
f. TXT x82377
f. TXT x82378
f. TXT x82379
f. TXT x82380
f. TXT x82381
f. TXT x82382
f. TXT x82383
f. TXT x82384
f. TXT x82385
f. TXT x82386
f. TXT x82387
f. TXT x82388
f. TXT x82389
f. TXT x82390
f. TXT x82391
f. TXT x82392
f. TXT x82393
f. TXT x82394
f. TXT x82395
f. TXT x82396
f. TXT x82397
f. TXT x82398
f. TXT x82399
f. TXT x82400
f. TXT x82401
f. TXT x82402
f. TXT x82403
f. TXT x82404
f. TXT x82405
f. TXT x82406
f. TXT x82407
f. TXT x82408
f. TXT x82409
f. TXT x82410
f. TXT x82411
f. TXT x82412
f. TXT x82413
f. TXT x82414
f. TXT x82415
f. TXT x82416
f. TXT x82417
f. TXT x82418
f. TXT x82419
f. TXT x82420
f. TXT x82421
f. TXT x82422
f. TXT x82423
f. TXT x82424
f. TXT x82425
f. TXT x82426
f. TXT x82427
f. TXT x82428
f. TXT x82429
f. TXT x82430
f. TXT x82431
$TTL 1870731378
f. TXT x82433
f. TXT x82434
f. TXT x82435
f. TXT x82436
f. TXT x82437
f. TXT x82438
f. TXT x82439
f. TXT x82440
f. TXT x82441
f. TXT x82442
f. TXT x82443
f. TXT x82444
f. TXT x82445
f. TXT x82446
f. TXT x82447
f. TXT x82448
f. TXT x82449
f. TXT x82450
f. TXT x82451
f. TXT x82452
f. TXT x82453
f. TXT x82454
f. TXT x82455
f. TXT x82456
f. TXT x82457
f. TXT x82458
f. TXT x82459
f. TXT x82460
f. TXT x82461
f. TXT x82462
f. TXT x82463
f. TXT x82464
f. TXT x82465
f. TXT x82466
f. TXT x82467
f. TXT x82468
f. TXT x82469
f. TXT x82470
f. TXT x82471
f. TXT x82472
f. TXT x82473
f. TXT x82474
f. TXT x82475
f. TXT x82476
f. TXT x82477
f. TXT x82478
f. TXT x82479
f. TXT x82480
f. TXT x82481
f. TXT x82482
f. TXT x82483
f. TXT x82484
f. TXT x82485
f. TXT x82486
f. TXT x82487
f. TXT x82488
f. TXT x82489
f. TXT x82490
f. TXT x82491
f. TXT x82492
f. TXT x82493
f. TXT x82494
f. TXT x82495
@ A x
f. TXT x82497
f. TXT x82498
f. TXT x82499
f. TXT x82500
f. TXT x82501
f. TXT x82502
f. TXT x82503
f. TXT x82504
f. TXT x82505
f. TXT x82506
f. TXT x82507
f. TXT x82508
f. TXT x82509
f. TXT x82510
f. TXT x82511
f. TXT x82512
f. TXT x82513
f. TXT x82514
f. TXT x82515
f. TXT x82516
f. TXT x82517
f. TXT x82518
f. TXT x82519
f. TXT x82520
f. TXT x82521
f. TXT x82522
f. TXT x82523
f. TXT x82524
f. TXT x82525
f. TXT x82526
f. TXT x82527
f. TXT x82528
f. TXT x82529
f. TXT x82530
f. TXT x82531
f. TXT x82532
f. TXT x82533
f. TXT x82534
f. TXT x82535
f. TXT x82536
f. TXT x82537
f. TXT x82538
f. TXT x82539
f. TXT x82540
f. TXT x82541
f. TXT x82542
f. TXT x82543
f. TXT x82544
f. TXT x82545
f. TXT x82546
f. TXT x82547
f. TXT x82548
f. TXT x82549
f. TXT x82550
f. TXT x82551
f. TXT x82552
f. TXT x82553
f. TXT x82554
f. TXT x82555
f. TXT x82556
f. TXT x82557
f. TXT x82558
f. TXT x82559
$TTL 1155906
f. TXT x82561
f. TXT x82562
f. TXT x82563
f. TXT x82564
f. TXT x82565
f. TXT x82566
f. TXT x82567
f. TXT x82568
f. TXT x82569
f. TXT x82570
f. TXT x82571
f. TXT x82572
f. TXT x82573
f. TXT x82574
f. TXT x82575
f. TXT x82576
f. TXT x82577
f. TXT x82578
f. TXT x82579
f. TXT x82580
f. TXT x82581
f. TXT x82582
f. TXT x82583
f. TXT x82584
f. TXT x82585
f. TXT x82586
f. TXT x82587
f. TXT x82588
f. TXT x82589
f. TXT x82590
f. TXT x82591
f. TXT x82592
f. TXT x82593
f. TXT x82594
f. TXT x82595
f. TXT x82596
f. TXT x82597
f. TXT x82598
f. TXT x82599
f. TXT x82600
f. TXT x82601
f. TXT x82602
f. TXT x82603
f. TXT x82604
f. TXT x82605
f. TXT x82606
f. TXT x82607
f. TXT x82608
f. TXT x82609
f. TXT x82610
f. TXT x82611
f. TXT x82612
f. TXT x82613
f. TXT x82614
f. TXT x82615
f. TXT x82616
f. TXT x82617
f. TXT x82618
f. TXT x82619
f. TXT x82620
f. TXT x82621
f. TXT x82622
f. TXT x82623
aa TXT *
f. TXT x82625
f. TXT x82626
f. TXT x82627
f. TXT x82628
f. TXT x82629
f. TXT x82630
f. TXT x82631
f. TXT x82632
f. TXT x82633
f. TXT x82634
f. TXT x82635
f. TXT x82636
f. TXT x82637
f. TXT x82638
f. TXT x82639
f. TXT x82640
f. TXT x82641
f. TXT x82642
f. TXT x82643
f. TXT x82644
f. TXT x82645
f. TXT x82646
f. TXT x82647
f. TXT x82648
f. TXT x82649
f. TXT x82650
f. TXT x82651
f. TXT x82652
f. TXT x82653
f. TXT x82654
f. TXT x82655
f. TXT x82656
f. TXT x82657
f. TXT x82658
f. TXT x82659
f. TXT x82660
f. TXT x82661
f. TXT x82662
f. TXT x82663
f. TXT x82664
f. TXT x82665
f. TXT x82666
f. TXT x82667
f. TXT x82668
f. TXT x82669
f. TXT x82670
f. TXT x82671
f. TXT x82672
f. TXT x82673
f. TXT x82674
f. TXT x82675
f. TXT x82676
f. TXT x82677
f. TXT x82678
f. TXT x82679
f. TXT x82680
f. TXT x82681
f. TXT x82682
f. TXT x82683
f. TXT x82684
f. TXT x82685
f. TXT x82686
f. TXT x82687
ccxa.b. A xby0
f. TXT x82689
f. TXT x82690
f. TXT x82691
f. TXT x82692
f. TXT x82693
f. TXT x82694
f. TXT x82695
f. TXT x82696
f. TXT x82697
f. TXT x82698
f. TXT x82699
f. TXT x82700
f. TXT x82701
f. TXT x82702
f. TXT x82703
f. TXT x82704
f. TXT x82705
f. TXT x82706
f. TXT x82707
f. TXT x82708
f. TXT x82709
f. TXT x82710
f. TXT x82711
f. TXT x82712
f. TXT x82713
f. TXT x82714
f. TXT x82715
f. TXT x82716
f. TXT x82717
f. TXT x82718
f. TXT x82719
f. TXT x82720
f. TXT x82721
f. TXT x82722
f. TXT x82723
f. TXT x82724
f. TXT x82725
f. TXT x82726
f. TXT x82727
f. TXT x82728
f. TXT x82729
f. TXT x82730
f. TXT x82731
f. TXT x82732
f. TXT x82733
f. TXT x82734
f. TXT x82735
f. TXT x82736
f. TXT x82737
f. TXT x82738
f. TXT x82739
f. TXT x82740
f. TXT x82741
f. TXT x82742
f. TXT x82743
f. TXT x82744
f. TXT x82745
f. TXT x82746
f. TXT x82747
f. TXT x82748
f. TXT x82749
f. TXT x82750
f. TXT x82751
$ORIGIN xzzy.
f. TXT x82753
f. TXT x82754
f. TXT x82755
f. TXT x82756
f. TXT x82757
f. TXT x82758
f. TXT x82759
f. TXT x82760
f. TXT x82761
f. TXT x82762
f. TXT x82763
f. TXT x82764
f. TXT x82765
f. TXT x82766
f. TXT x82767
f. TXT x82768
f. TXT x82769
f. TXT x82770
f. TXT x82771
f. TXT x82772
f. TXT x82773
f. TXT x82774
f. TXT x82775
f. TXT x82776
f. TXT x82777
f. TXT x82778
f. TXT x82779
f. TXT x82780
f. TXT x82781
f. TXT x82782
f. TXT x82783
f. TXT x82784
f. TXT x82785
f. TXT x82786
f. TXT x82787
f. TXT x82788
f. TXT x82789
f. TXT x82790
f. TXT x82791
f. TXT x82792
f. TXT x82793
f. TXT x82794
f. TXT x82795
f. TXT x82796
f. TXT x82797
f. TXT x82798
f. TXT x82799
f. TXT x82800
f. TXT x82801
f. TXT x82802
f. TXT x82803
f. TXT x82804
f. TXT x82805
f. TXT x82806
f. TXT x82807
f. TXT x82808
f. TXT x82809
f. TXT x82810
f. TXT x82811
f. TXT x82812
f. TXT x82813
f. TXT x82814
f. TXT x82815
-.*. NS * c c
f. TXT x82817
f. TXT x82818
f. TXT x82819
f. TXT x82820
f. TXT x82821
f. TXT x82822
f. TXT x82823
f. TXT x82824
f. TXT x82825
f. TXT x82826
f. TXT x82827
f. TXT x82828
f. TXT x82829
f. TXT x82830
f. TXT x82831
f. TXT x82832
f. TXT x82833
f. TXT x82834
f. TXT x82835
f. TXT x82836
f. TXT x82837
f. TXT x82838
f. TXT x82839
f. TXT x82840
f. TXT x82841
f. TXT x82842
f. TXT x82843
f. TXT x82844
f. TXT x82845
f. TXT x82846
f. TXT x82847
f. TXT x82848
f. TXT x82849
f. TXT x82850
f. TXT x82851
f. TXT x82852
f. TXT x82853
f. TXT x82854
f. TXT x82855
f. TXT x82856
f. TXT x82857
f. TXT x82858
f. TXT x82859
f. TXT x82860
f. TXT x82861
f. TXT x82862
f. TXT x82863
f. TXT x82864
f. TXT x82865
f. TXT x82866
f. TXT x82867
f. TXT x82868
f. TXT x82869
f. TXT x82870
f. TXT x82871
f. TXT x82872
f. TXT x82873
f. TXT x82874
f. TXT x82875
f. TXT x82876
f. TXT x82877
f. TXT x82878
f. TXT x82879
yzcx NS y0- aacx
f. TXT x82881
f. TXT x82882
f. TXT x82883
f. TXT x82884
f. TXT x82885
f. TXT x82886
f. TXT x82887
f. TXT x82888
f. TXT x82889
f. TXT x82890
f. TXT x82891
f. TXT x82892
f. TXT x82893
f. TXT x82894
f. TXT x82895
f. TXT x82896
f. TXT x82897
f. TXT x82898
f. TXT x82899
f. TXT x82900
f. TXT x82901
f. TXT x82902
f. TXT x82903
f. TXT x82904
f. TXT x82905
f. TXT x82906
f. TXT x82907
f. TXT x82908
f. TXT x82909
f. TXT x82910
f. TXT x82911
f. TXT x82912
f. TXT x82913
f. TXT x82914
f. TXT x82915
f. TXT x82916
f. TXT x82917
f. TXT x82918
f. TXT x82919
f. TXT x82920
f. TXT x82921
f. TXT x82922
f. TXT x82923
f. TXT x82924
f. TXT x82925
f. TXT x82926
f. TXT x82927
f. TXT x82928
f. TXT x82929
f. TXT x82930
f. TXT x82931
f. TXT x82932
f. TXT x82933
f. TXT x82934
f. TXT x82935
f. TXT x82936
f. TXT x82937
f. TXT x82938
f. TXT x82939
f. TXT x82940
f. TXT x82941
f. TXT x82942
f. TXT x82943
$ORIGIN b.
f. TXT x82945
f. TXT x82946
f. TXT x82947
f. TXT x82948
f. TXT x82949
f. TXT x82950
f. TXT x82951
f. TXT x82952
f. TXT x82953
f. TXT x82954
f. TXT x82955
f. TXT x82956
f. TXT x82957
f. TXT x82958
f. TXT x82959
f. TXT x82960
f. TXT x82961
f. TXT x82962
f. TXT x82963
f. TXT x82964
f. TXT x82965
f. TXT x82966
f. TXT x82967
f. TXT x82968
f. TXT x82969
f. TXT x82970
f. TXT x82971
f. TXT x82972
f. TXT x82973
f. TXT x82974
f. TXT x82975
f. TXT x82976
f. TXT x82977
f. TXT x82978
f. TXT x82979
f. TXT x82980
f. TXT x82981
f. TXT x82982
f. TXT x82983
f. TXT x82984
f. TXT x82985
f. TXT x82986
f. TXT x82987
f. TXT x82988
f. TXT x82989
f. TXT x82990
f. TXT x82991
f. TXT x82992
f. TXT x82993
f. TXT x82994
f. TXT x82995
f. TXT x82996
f. TXT x82997
f. TXT x82998
f. TXT x82999
f. TXT x83000
f. TXT x83001
f. TXT x83002
f. TXT x83003
f. TXT x83004
f. TXT x83005
f. TXT x83006
f. TXT x83007
; *
f. TXT x83009
f. TXT x83010
f. TXT x83011
f. TXT x83012
f. TXT x83013
f. TXT x83014
f. TXT x83015
f. TXT x83016
f. TXT x83017
f. TXT x83018
f. TXT x83019
f. TXT x83020
f. TXT x83021
f. TXT x83022
f. TXT x83023
f. TXT x83024
f. TXT x83025
f. TXT x83026
f. TXT x83027
f. TXT x83028
f. TXT x83029
f. TXT x83030
f. TXT x83031
f. TXT x83032
f. TXT x83033
f. TXT x83034
f. TXT x83035
f. TXT x83036
f. TXT x83037
f. TXT x83038
f. TXT x83039
f. TXT x83040
f. TXT x83041
f. TXT x83042
f. TXT x83043
f. TXT x83044
f. TXT x83045
f. TXT x83046
f. TXT x83047
f. TXT x83048
f. TXT x83049
f. TXT x83050
f. TXT x83051
f. TXT x83052
f. TXT x83053
f. TXT x83054
f. TXT x83055
f. TXT x83056
f. TXT x83057
f. TXT x83058
f. TXT x83059
f. TXT x83060
f. TXT x83061
f. TXT x83062
f. TXT x83063
f. TXT x83064
f. TXT x83065
f. TXT x83066
f. TXT x83067
f. TXT x83068
f. TXT x83069
f. TXT x83070
f. TXT x83071
0.b*. NS b0cb
f. TXT x83073
f. TXT x83074
f. TXT x83075
f. TXT x83076
f. TXT x83077
f. TXT x83078
f. TXT x83079
f. TXT x83080
f. TXT x83081
f. TXT x83082
f. TXT x83083
f. TXT x83084
f. TXT x83085
f. TXT x83086
f. TXT x83087
f. TXT x83088
f. TXT x83089
f. TXT x83090
f. TXT x83091
f. TXT x83092
f. TXT x83093
f. TXT x83094
f. TXT x83095
f. TXT x83096
f. TXT x83097
f. TXT x83098
f. TXT x83099
f. TXT x83100
f. TXT x83101
f. TXT x83102
f. TXT x83103
f. TXT x83104
f. TXT x83105
f. TXT x83106
f. TXT x83107
f. TXT x83108
f. TXT x83109
f. TXT x83110
f. TXT x83111
f. TXT x83112
f. TXT x83113
f. TXT x83114
f. TXT x83115
f. TXT x83116
f. TXT x83117
f. TXT x83118
f. TXT x83119
f. TXT x83120
f. TXT x83121
f. TXT x83122
f. TXT x83123
f. TXT x83124
f. TXT x83125
f. TXT x83126
f. TXT x83127
f. TXT x83128
f. TXT x83129
f. TXT x83130
f. TXT x83131
f. TXT x83132
f. TXT x83133
f. TXT x83134
f. TXT x83135
x TXT abc ax0b zcz
f. TXT x83137
f. TXT x83138
f. TXT x83139
f. TXT x83140
f. TXT x83141
f. TXT x83142
f. TXT x83143
f. TXT x83144
f. TXT x83145
f. TXT x83146
f. TXT x83147
f. TXT x83148
f. TXT x83149
f. TXT x83150
f. TXT x83151
f. TXT x83152
f. TXT x83153
f. TXT x83154
f. TXT x83155
f. TXT x83156
f. TXT x83157
f. TXT x83158
f. TXT x83159
f. TXT x83160
f. TXT x83161
f. TXT x83162
f. TXT x83163
f. TXT x83164
f. TXT x83165
f. TXT x83166
f. TXT x83167
f. TXT x83168
f. TXT x83169
f. TXT x83170
f. TXT x83171
f. TXT x83172
f. TXT x83173
f. TXT x83174
f. TXT x83175
f. TXT x83176
f. TXT x83177
f. TXT x83178
f. TXT x83179
f. TXT x83180
f. TXT x83181
f. TXT x83182
f. TXT x83183
f. TXT x83184
f. TXT x83185
f. TXT x83186
f. TXT x83187
f. TXT x83188
f. TXT x83189
f. TXT x83190
f. TXT x83191
f. TXT x83192
f. TXT x83193
f. TXT x83194
f. TXT x83195
f. TXT x83196
f. TXT x83197
f. TXT x83198
f. TXT x83199
@ A c-*x zb- a-yb
f. TXT x83201
f. TXT x83202
f. TXT x83203
f. TXT x83204
f. TXT x83205
f. TXT x83206
f. TXT x83207
f. TXT x83208
f. TXT x83209
f. TXT x83210
f. TXT x83211
f. TXT x83212
f. TXT x83213
f. TXT x83214
f. TXT x83215
f. TXT x83216
f. TXT x83217
f. TXT x83218
f. TXT x83219
f. TXT x83220
f. TXT x83221
f. TXT x83222
f. TXT x83223
f. TXT x83224
f. TXT x83225
f. TXT x83226
f. TXT x83227
f. TXT x83228
f. TXT x83229
f. TXT x83230
f. TXT x83231
f. TXT x83232
f. TXT x83233
f. TXT x83234
f. TXT x83235
f. TXT x83236
f. TXT x83237
f. TXT x83238
f. TXT x83239
f. TXT x83240
f. TXT x83241
f. TXT x83242
f. TXT x83243
f. TXT x83244
f. TXT x83245
f. TXT x83246
f. TXT x83247
f. TXT x83248
f. TXT x83249
f. TXT x83250
f. TXT x83251
f. TXT x83252
f. TXT x83253
f. TXT x83254
f. TXT x83255
f. TXT x83256
f. TXT x83257
f. TXT x83258
f. TXT x83259
f. TXT x83260
f. TXT x83261
f. TXT x83262
f. TXT x83263
 TXT xyb0 c -
f. TXT x83265
f. TXT x83266
f. TXT x83267
f. TXT x83268
f. TXT x83269
f. TXT x83270
f. TXT x83271
f. TXT x83272
f. TXT x83273
f. TXT x83274
f. TXT x83275
f. TXT x83276
f. TXT x83277
f. TXT x83278
f. TXT x83279
f. TXT x83280
f. TXT x83281
f. TXT x83282
f. TXT x83283
f. TXT x83284
f. TXT x83285
f. TXT x83286
f. TXT x83287
f. TXT x83288
f. TXT x83289
f. TXT x83290
f. TXT x83291
f. TXT x83292
f. TXT x83293
f. TXT x83294
f. TXT x83295
f. TXT x83296
f. TXT x83297
f. TXT x83298
f. TXT x83299
f. TXT x83300
f. TXT x83301
f. TXT x83302
f. TXT x83303
f. TXT x83304
f. TXT x83305
f. TXT x83306
f. TXT x83307
f. TXT x83308
f. TXT x83309
f. TXT x83310
f. TXT x83311
f. TXT x83312
f. TXT x83313
f. TXT x83314
f. TXT x83315
f. TXT x83316
f. TXT x83317
f. TXT x83318
f. TXT x83319
f. TXT x83320
f. TXT x83321
f. TXT x83322
f. TXT x83323
f. TXT x83324
f. TXT x83325
f. TXT x83326
f. TXT x83327
xz0z NS a- *-0
f. TXT x83329
f. TXT x83330
f. TXT x83331
f. TXT x83332
f. TXT x83333
f. TXT x83334
f. TXT x83335
f. TXT x83336
f. TXT x83337
f. TXT x83338
f. TXT x83339
f. TXT x83340
f. TXT x83341
f. TXT x83342
f. TXT x83343
f. TXT x83344
f. TXT x83345
f. TXT x83346
f. TXT x83347
f. TXT x83348
f. TXT x83349
f. TXT x83350
f. TXT x83351
f. TXT x83352
f. TXT x83353
f. TXT x83354
f. TXT x83355
f. TXT x83356
f. TXT x83357
f. TXT x83358
f. TXT x83359
f. TXT x83360
f. TXT x83361
f. TXT x83362
f. TXT x83363
f. TXT x83364
f. TXT x83365
f. TXT x83366
f. TXT x83367
f. TXT x83368
f. TXT x83369
f. TXT x83370
f. TXT x83371
f. TXT x83372
f. TXT x83373
f. TXT x83374
f. TXT x83375
f. TXT x83376
f. TXT x83377
f. TXT x83378
f. TXT x83379
f. TXT x83380
f. TXT x83381
f. TXT x83382
f. TXT x83383
f. TXT x83384
f. TXT x83385
f. TXT x83386
f. TXT x83387
f. TXT x83388
f. TXT x83389
f. TXT x83390
f. TXT x83391
yc A x
f. TXT x83393
f. TXT x83394
f. TXT x83395
f. TXT x83396
f. TXT x83397
f. TXT x83398
f. TXT x83399
f. TXT x83400
f. TXT x83401
f. TXT x83402
f. TXT x83403
f. TXT x83404
f. TXT x83405
f. TXT x83406
f. TXT x83407
f. TXT x83408
f. TXT x83409
f. TXT x83410
f. TXT x83411
f. TXT x83412
f. TXT x83413
f. TXT x83414
f. TXT x83415
f. TXT x83416
f. TXT x83417
f. TXT x83418
f. TXT x83419
f. TXT x83420
f. TXT x83421
f. TXT x83422
f. TXT x83423
f. TXT x83424
f. TXT x83425
f. TXT x83426
f. TXT x83427
f. TXT x83428
f. TXT x83429
f. TXT x83430
f. TXT x83431
f. TXT x83432
f. TXT x83433
f. TXT x83434
f. TXT x83435
f. TXT x83436
f. TXT x83437
f. TXT x83438
f. TXT x83439
f. TXT x83440
f. TXT x83441
f. TXT x83442
f. TXT x83443
f. TXT x83444
f. TXT x83445
f. TXT x83446
f. TXT x83447
f. TXT x83448
f. TXT x83449
f. TXT x83450
f. TXT x83451
f. TXT x83452
f. TXT x83453
f. TXT x83454
f. TXT x83455
 TXT b0 0- ac
f. TXT x83457
f. TXT x83458
f. TXT x83459
f. TXT x83460
f. TXT x83461
f. TXT x83462
f. TXT x83463
f. TXT x83464
f. TXT x83465
f. TXT x83466
f. TXT x83467
f. TXT x83468
f. TXT x83469
f. TXT x83470
f. TXT x83471
f. TXT x83472
f. TXT x83473
f. TXT x83474
f. TXT x83475
f. TXT x83476
f. TXT x83477
f. TXT x83478
f. TXT x83479
f. TXT x83480
f. TXT x83481
f. TXT x83482
f. TXT x83483
f. TXT x83484
f. TXT x83485
f. TXT x83486
f. TXT x83487
f. TXT x83488
f. TXT x83489
f. TXT x83490
f. TXT x83491
f. TXT x83492
f. TXT x83493
f. TXT x83494
f. TXT x83495
f. TXT x83496
f. TXT x83497
f. TXT x83498
f. TXT x83499
f. TXT x83500
f. TXT x83501
f. TXT x83502
f. TXT x83503
f. TXT x83504
f. TXT x83505
f. TXT x83506
f. TXT x83507
f. TXT x83508
f. TXT x83509
f. TXT x83510
f. TXT x83511
f. TXT x83512
f. TXT x83513
f. TXT x83514
f. TXT x83515
f. TXT x83516
f. TXT x83517
f. TXT x83518
f. TXT x83519
; c
f. TXT x83521
f. TXT x83522
f. TXT x83523
f. TXT x83524
f. TXT x83525
f. TXT x83526
f. TXT x83527
f. TXT x83528
f. TXT x83529
f. TXT x83530
f. TXT x83531
f. TXT x83532
f. TXT x83533
f. TXT x83534
f. TXT x83535
f. TXT x83536
f. TXT x83537
f. TXT x83538
f. TXT x83539
f. TXT x83540
f. TXT x83541
f. TXT x83542
f. TXT x83543
f. TXT x83544
f. TXT x83545
f. TXT x83546
f. TXT x83547
f. TXT x83548
f. TXT x83549
f. TXT x83550
f. TXT x83551
f. TXT x83552
f. TXT x83553
f. TXT x83554
f. TXT x83555
f. TXT x83556
f. TXT x83557
f. TXT x83558
f. TXT x83559
f. TXT x83560
f. TXT x83561
f. TXT x83562
f. TXT x83563
f. TXT x83564
f. TXT x83565
f. TXT x83566
f. TXT x83567
f. TXT x83568
f. TXT x83569
f. TXT x83570
f. TXT x83571
f. TXT x83572
f. TXT x83573
f. TXT x83574
f. TXT x83575
f. TXT x83576
f. TXT x83577
f. TXT x83578
f. TXT x83579
f. TXT x83580
f. TXT x83581
f. TXT x83582
f. TXT x83583
$TTL 4294967295
f. TXT x83585
f. TXT x83586
f. TXT x83587
f. TXT x83588
f. TXT x83589
f. TXT x83590
f. TXT x83591
f. TXT x83592
f. TXT x83593
f. TXT x83594
f. TXT x83595
f. TXT x83596
f. TXT x83597
f. TXT x83598
f. TXT x83599
f. TXT x83600
f. TXT x83601
f. TXT x83602
f. TXT x83603
f. TXT x83604
f. TXT x83605
f. TXT x83606
f. TXT x83607
f. TXT x83608
f. TXT x83609
f. TXT x83610
f. TXT x83611
f. TXT x83612
f. TXT x83613
f. TXT x83614
f. TXT x83615
f. TXT x83616
f. TXT x83617
f. TXT x83618
f. TXT x83619
f. TXT x83620
f. TXT x83621
f. TXT x83622
f. TXT x83623
f. TXT x83624
f. TXT x83625
f. TXT x83626
f. TXT x83627
f. TXT x83628
f. TXT x83629
f. TXT x83630
f. TXT x83631
f. TXT x83632
f. TXT x83633
f. TXT x83634
f. TXT x83635
f. TXT x83636
f. TXT x83637
f. TXT x83638
f. TXT x83639
f. TXT x83640
f. TXT x83641
f. TXT x83642
f. TXT x83643
f. TXT x83644
f. TXT x83645
f. TXT x83646
f. TXT x83647
* A -x0b x a*
f. TXT x83649
f. TXT x83650
f. TXT x83651
f. TXT x83652
f. TXT x83653
f. TXT x83654
f. TXT x83655
f. TXT x83656
f. TXT x83657
f. TXT x83658
f. TXT x83659
f. TXT x83660
f. TXT x83661
f. TXT x83662
f. TXT x83663
f. TXT x83664
f. TXT x83665
f. TXT x83666
f. TXT x83667
f. TXT x83668
f. TXT x83669
f. TXT x83670
f. TXT x83671
f. TXT x83672
f. TXT x83673
f. TXT x83674
f. TXT x83675
f. TXT x83676
f. TXT x83677
f. TXT x83678
f. TXT x83679
f. TXT x83680
f. TXT x83681
f. TXT x83682
f. TXT x83683
f. TXT x83684
f. TXT x83685
f. TXT x83686
f. TXT x83687
f. TXT x83688
f. TXT x83689
f. TXT x83690
f. TXT x83691
f. TXT x83692
f. TXT x83693
f. TXT x83694
f. TXT x83695
f. TXT x83696
f. TXT x83697
f. TXT x83698
f. TXT x83699
f. TXT x83700
f. TXT x83701
f. TXT x83702
f. TXT x83703
f. TXT x83704
f. TXT x83705
f. TXT x83706
f. TXT x83707
f. TXT x83708
f. TXT x83709
f. TXT x83710
f. TXT x83711
xxc* A ac0- *0ac
f. TXT x83713
f. TXT x83714
f. TXT x83715
f. TXT x83716
f. TXT x83717
f. TXT x83718
f. TXT x83719
f. TXT x83720
f. TXT x83721
f. TXT x83722
f. TXT x83723
f. TXT x83724
f. TXT x83725
f. TXT x83726
f. TXT x83727
f. TXT x83728
f. TXT x83729
f. TXT x83730
f. TXT x83731
f. TXT x83732
f. TXT x83733
f. TXT x83734
f. TXT x83735
f. TXT x83736
f. TXT x83737
f. TXT x83738
f. TXT x83739
f. TXT x83740
f. TXT x83741
f. TXT x83742
f. TXT x83743
f. TXT x83744
f. TXT x83745
f. TXT x83746
f. TXT x83747
f. TXT x83748
f. TXT x83749
f. TXT x83750
f. TXT x83751
f. TXT x83752
f. TXT x83753
f. TXT x83754
f. TXT x83755
f. TXT x83756
f. TXT x83757
f. TXT x83758
f. TXT x83759
f. TXT x83760
f. TXT x83761
f. TXT x83762
f. TXT x83763
f. TXT x83764
f. TXT x83765
f. TXT x83766
f. TXT x83767
f. TXT x83768
f. TXT x83769
f. TXT x83770
f. TXT x83771
f. TXT x83772
f. TXT x83773
f. TXT x83774
f. TXT x83775
 NS za
f. TXT x83777
f. TXT x83778
f. TXT x83779
f. TXT x83780
f. TXT x83781
f. TXT x83782
f. TXT x83783
f. TXT x83784
f. TXT x83785
f. TXT x83786
f. TXT x83787
f. TXT x83788
f. TXT x83789
f. TXT x83790
f. TXT x83791
f. TXT x83792
f. TXT x83793
f. TXT x83794
f. TXT x83795
f. TXT x83796
f. TXT x83797
f. TXT x83798
f. TXT x83799
f. TXT x83800
f. TXT x83801
f. TXT x83802
f. TXT x83803
f. TXT x83804
f. TXT x83805
f. TXT x83806
f. TXT x83807
f. TXT x83808
f. TXT x83809
f. TXT x83810
f. TXT x83811
f. TXT x83812
f. TXT x83813
f. TXT x83814
f. TXT x83815
f. TXT x83816
f. TXT x83817
f. TXT x83818
f. TXT x83819
f. TXT x83820
f. TXT x83821
f. TXT x83822
f. TXT x83823
f. TXT x83824
f. TXT x83825
f. TXT x83826
f. TXT x83827
f. TXT x83828
f. TXT x83829
f. TXT x83830
f. TXT x83831
f. TXT x83832
f. TXT x83833
f. TXT x83834
f. TXT x83835
f. TXT x83836
f. TXT x83837
f. TXT x83838
f. TXT x83839
@ TXT *z z
f. TXT x83841
f. TXT x83842
f. TXT x83843
f. TXT x83844
f. TXT x83845
f. TXT x83846
f. TXT x83847
f. TXT x83848
f. TXT x83849
f. TXT x83850
f. TXT x83851
f. TXT x83852
f. TXT x83853
f. TXT x83854
f. TXT x83855
f. TXT x83856
f. TXT x83857
f. TXT x83858
f. TXT x83859
f. TXT x83860
f. TXT x83861
f. TXT x83862
f. TXT x83863
f. TXT x83864
f. TXT x83865
f. TXT x83866
f. TXT x83867
f. TXT x83868
f. TXT x83869
f. TXT x83870
f. TXT x83871
f. TXT x83872
f. TXT x83873
f. TXT x83874
f. TXT x83875
f. TXT x83876
f. TXT x83877
f. TXT x83878
f. TXT x83879
f. TXT x83880
f. TXT x83881
f. TXT x83882
f. TXT x83883
f. TXT x83884
f. TXT x83885
f. TXT x83886
f. TXT x83887
f. TXT x83888
f. TXT x83889
f. TXT x83890
f. TXT x83891
f. TXT x83892
f. TXT x83893
f. TXT x83894
f. TXT x83895
f. TXT x83896
f. TXT x83897
f. TXT x83898
f. TXT x83899
f. TXT x83900
f. TXT x83901
f. TXT x83902
f. TXT x83903
0x A *-0
f. TXT x83905
f. TXT x83906
f. TXT x83907
f. TXT x83908
f. TXT x83909
f. TXT x83910
f. TXT x83911
f. TXT x83912
f. TXT x83913
f. TXT x83914
f. TXT x83915
f. TXT x83916
f. TXT x83917
f. TXT x83918
f. TXT x83919
f. TXT x83920
f. TXT x83921
f. TXT x83922
f. TXT x83923
f. TXT x83924
f. TXT x83925
f. TXT x83926
f. TXT x83927
f. TXT x83928
f. TXT x83929
f. TXT x83930
f. TXT x83931
f. TXT x83932
f. TXT x83933
f. TXT x83934
f. TXT x83935
f. TXT x83936
f. TXT x83937
f. TXT x83938
f. TXT x83939
f. TXT x83940
f. TXT x83941
f. TXT x83942
f. TXT x83943
f. TXT x83944
f. TXT x83945
f. TXT x83946
f. TXT x83947
f. TXT x83948
f. TXT x83949
f. TXT x83950
f. TXT x83951
f. TXT x83952
f. TXT x83953
f. TXT x83954
f. TXT x83955
f. TXT x83956
f. TXT x83957
f. TXT x83958
f. TXT x83959
f. TXT x83960
f. TXT x83961
f. TXT x83962
f. TXT x83963
f. TXT x83964
f. TXT x83965
f. TXT x83966
f. TXT x83967
-. TXT c zbyy
f. TXT x83969
f. TXT x83970
f. TXT x83971
f. TXT x83972
f. TXT x83973
f. TXT x83974
f. TXT x83975
f. TXT x83976
f. TXT x83977
f. TXT x83978
f. TXT x83979
f. TXT x83980
f. TXT x83981
f. TXT x83982
f. TXT x83983
f. TXT x83984
f. TXT x83985
f. TXT x83986
f. TXT x83987
f. TXT x83988
f. TXT x83989
f. TXT x83990
f. TXT x83991
f. TXT x83992
f. TXT x83993
f. TXT x83994
f. TXT x83995
f. TXT x83996
f. TXT x83997
f. TXT x83998
f. TXT x83999
f. TXT x84000
f. TXT x84001
f. TXT x84002
f. TXT x84003
f. TXT x84004
f. TXT x84005
f. TXT x84006
f. TXT x84007
f. TXT x84008
f. TXT x84009
f. TXT x84010
f. TXT x84011
f. TXT x84012
f. TXT x84013
f. TXT x84014
f. TXT x84015
f. TXT x84016
f. TXT x84017
f. TXT x84018
f. TXT x84019
f. TXT x84020
f. TXT x84021
f. TXT x84022
f. TXT x84023
f. TXT x84024
f. TXT x84025
f. TXT x84026
f. TXT x84027
f. TXT x84028
f. TXT x84029
f. TXT x84030
f. TXT x84031
$TTL 351
f. TXT x84033
f. TXT x84034
f. TXT x84035
f. TXT x84036
f. TXT x84037
f. TXT x84038
f. TXT x84039
f. TXT x84040
f. TXT x84041
f. TXT x84042
f. TXT x84043
f. TXT x84044
f. TXT x84045
f. TXT x84046
f. TXT x84047
f. TXT x84048
f. TXT x84049
f. TXT x84050
f. TXT x84051
f. TXT x84052
f. TXT x84053
f. TXT x84054
f. TXT x84055
f. TXT x84056
f. TXT x84057
f. TXT x84058
f. TXT x84059
f. TXT x84060
f. TXT x84061
f. TXT x84062
f. TXT x84063
f. TXT x84064
f. TXT x84065
f. TXT x84066
f. TXT x84067
f. TXT x84068
f. TXT x84069
f. TXT x84070
f. TXT x84071
f. TXT x84072
f. TXT x84073
f. TXT x84074
f. TXT x84075
f. TXT x84076
f. TXT x84077
f. TXT x84078
f. TXT x84079
f. TXT x84080
f. TXT x84081
f. TXT x84082
f. TXT x84083
f. TXT x84084
f. TXT x84085
f. TXT x84086
f. TXT x84087
f. TXT x84088
f. TXT x84089
f. TXT x84090
f. TXT x84091
f. TXT x84092
f. TXT x84093
f. TXT x84094
f. TXT x84095
bx0.x. NS z*bc
f. TXT x84097
f. TXT x84098
f. TXT x84099
f. TXT x84100
f. TXT x84101
f. TXT x84102
f. TXT x84103
f. TXT x84104
f. TXT x84105
f. TXT x84106
f. TXT x84107
f. TXT x84108
f. TXT x84109
f. TXT x84110
f. TXT x84111
f. TXT x84112
f. TXT x84113
f. TXT x84114
f. TXT x84115
f. TXT x84116
f. TXT x84117
f. TXT x84118
f. TXT x84119
f. TXT x84120
f. TXT x84121
f. TXT x84122
f. TXT x84123
f. TXT x84124
f. TXT x84125
f. TXT x84126
f. TXT x84127
f. TXT x84128
f. TXT x84129
f. TXT x84130
f. TXT x84131
f. TXT x84132
f. TXT x84133
f. TXT x84134
f. TXT x84135
f. TXT x84136
f. TXT x84137
f. TXT x84138
f. TXT x84139
f. TXT x84140
f. TXT x84141
f. TXT x84142
f. TXT x84143
f. TXT x84144
f. TXT x84145
f. TXT x84146
f. TXT x84147
f. TXT x84148
f. TXT x84149
f. TXT x84150
f. TXT x84151
f. TXT x84152
f. TXT x84153
f. TXT x84154
f. TXT x84155
f. TXT x84156
f. TXT x84157
f. TXT x84158
f. TXT x84159
y. A yc--
f. TXT x84161
f. TXT x84162
f. TXT x84163
f. TXT x84164
f. TXT x84165
f. TXT x84166
f. TXT x84167
f. TXT x84168
f. TXT x84169
f. TXT x84170
f. TXT x84171
f. TXT x84172
f. TXT x84173
f. TXT x84174
f. TXT x84175
f. TXT x84176
f. TXT x84177
f. TXT x84178
f. TXT x84179
f. TXT x84180
f. TXT x84181
f. TXT x84182
f. TXT x84183
f. TXT x84184
f. TXT x84185
f. TXT x84186
f. TXT x84187
f. TXT x84188
f. TXT x84189
f. TXT x84190
f. TXT x84191
f. TXT x84192
f. TXT x84193
f. TXT x84194
f. TXT x84195
f. TXT x84196
f. TXT x84197
f. TXT x84198
f. TXT x84199
f. TXT x84200
f. TXT x84201
f. TXT x84202
f. TXT x84203
f. TXT x84204
f. TXT x84205
f. TXT x84206
f. TXT x84207
f. TXT x84208
f. TXT x84209
f. TXT x84210
f. TXT x84211
f. TXT x84212
f. TXT x84213
f. TXT x84214
f. TXT x84215
f. TXT x84216
f. TXT x84217
f. TXT x84218
f. TXT x84219
f. TXT x84220
f. TXT x84221
f. TXT x84222
f. TXT x84223
 NS vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
f. TXT x84225
f. TXT x84226
f. TXT x84227
f. TXT x84228
f. TXT x84229
f. TXT x84230
f. TXT x84231
f. TXT x84232
f. TXT x84233
f. TXT x84234
f. TXT x84235
f. TXT x84236
f. TXT x84237
f. TXT x84238
f. TXT x84239
f. TXT x84240
f. TXT x84241
f. TXT x84242
f. TXT x84243
f. TXT x84244
f. TXT x84245
f. TXT x84246
f. TXT x84247
f. TXT x84248
f. TXT x84249
f. TXT x84250
f. TXT x84251
f. TXT x84252
f. TXT x84253
f. TXT x84254
f. TXT x84255
f. TXT x84256
f. TXT x84257
f. TXT x84258
f. TXT x84259
f. TXT x84260
f. TXT x84261
f. TXT x84262
f. TXT x84263
f. TXT x84264
f. TXT x84265
f. TXT x84266
f. TXT x84267
f. TXT x84268
f. TXT x84269
f. TXT x84270
f. TXT x84271
f. TXT x84272
f. TXT x84273
f. TXT x84274
f. TXT x84275
f. TXT x84276
f. TXT x84277
f. TXT x84278
f. TXT x84279
f. TXT x84280
f. TXT x84281
f. TXT x84282
f. TXT x84283
f. TXT x84284
f. TXT x84285
f. TXT x84286
f. TXT x84287
; a-
f. TXT x84289
f. TXT x84290
f. TXT x84291
f. TXT x84292
f. TXT x84293
f. TXT x84294
f. TXT x84295
f. TXT x84296
f. TXT x84297
f. TXT x84298
f. TXT x84299
f. TXT x84300
f. TXT x84301
f. TXT x84302
f. TXT x84303
f. TXT x84304
f. TXT x84305
f. TXT x84306
f. TXT x84307
f. TXT x84308
f. TXT x84309
f. TXT x84310
f. TXT x84311
f. TXT x84312
f. TXT x84313
f. TXT x84314
f. TXT x84315
f. TXT x84316
f. TXT x84317
f. TXT x84318
f. TXT x84319
f. TXT x84320
f. TXT x84321
f. TXT x84322
f. TXT x84323
f. TXT x84324
f. TXT x84325
f. TXT x84326
f. TXT x84327
f. TXT x84328
f. TXT x84329
f. TXT x84330
f. TXT x84331
f. TXT x84332
f. TXT x84333
f. TXT x84334
f. TXT x84335
f. TXT x84336
f. TXT x84337
f. TXT x84338
f. TXT x84339
f. TXT x84340
f. TXT x84341
f. TXT x84342
f. TXT x84343
f. TXT x84344
f. TXT x84345
f. TXT x84346
f. TXT x84347
f. TXT x84348
f. TXT x84349
f. TXT x84350
f. TXT x84351

f. TXT x84353
f. TXT x84354
f. TXT x84355
f. TXT x84356
f. TXT x84357
f. TXT x84358
f. TXT x84359
f. TXT x84360
f. TXT x84361
f. TXT x84362
f. TXT x84363
f. TXT x84364
f. TXT x84365
f. TXT x84366
f. TXT x84367
f. TXT x84368
f. TXT x84369
f. TXT x84370
f. TXT x84371
f. TXT x84372
f. TXT x84373
f. TXT x84374
f. TXT x84375
f. TXT x84376
f. TXT x84377
f. TXT x84378
f. TXT x84379
f. TXT x84380
f. TXT x84381
f. TXT x84382
f. TXT x84383
f. TXT x84384
f. TXT x84385
f. TXT x84386
f. TXT x84387
f. TXT x84388
f. TXT x84389
f. TXT x84390
f. TXT x84391
f. TXT x84392
f. TXT x84393
f. TXT x84394
f. TXT x84395
f. TXT x84396
f. TXT x84397
f. TXT x84398
f. TXT x84399
f. TXT x84400
f. TXT x84401
f. TXT x84402
f. TXT x84403
f. TXT x84404
f. TXT x84405
f. TXT x84406
f. TXT x84407
f. TXT x84408
f. TXT x84409
f. TXT x84410
f. TXT x84411
f. TXT x84412
f. TXT x84413
f. TXT x84414
f. TXT x84415
y*.-za. A -*ya bbyx
f. TXT x84417
f. TXT x84418
f. TXT x84419
f. TXT x84420
f. TXT x84421
f. TXT x84422
f. TXT x84423
f. TXT x84424
f. TXT x84425
f. TXT x84426
f. TXT x84427
f. TXT x84428
f. TXT x84429
f. TXT x84430
f. TXT x84431
f. TXT x84432
f. TXT x84433
f. TXT x84434
f. TXT x84435
f. TXT x84436
f. TXT x84437
f. TXT x84438
f. TXT x84439
f. TXT x84440
f. TXT x84441
f. TXT x84442
f. TXT x84443
f. TXT x84444
f. TXT x84445
f. TXT x84446
f. TXT x84447
f. TXT x84448
f. TXT x84449
f. TXT x84450
f. TXT x84451
f. TXT x84452
f. TXT x84453
f. TXT x84454
f. TXT x84455
f. TXT x84456
f. TXT x84457
f. TXT x84458
f. TXT x84459
f. TXT x84460
f. TXT x84461
f. TXT x84462
f. TXT x84463
f. TXT x84464
f. TXT x84465
f. TXT x84466
f. TXT x84467
f. TXT x84468
f. TXT x84469
f. TXT x84470
f. TXT x84471
f. TXT x84472
f. TXT x84473
f. TXT x84474
f. TXT x84475
f. TXT x84476
f. TXT x84477
f. TXT x84478
f. TXT x84479
$TTL 2147483648
f. TXT x84481
f. TXT x84482
f. TXT x84483
f. TXT x84484
f. TXT x84485
f. TXT x84486
f. TXT x84487
f. TXT x84488
f. TXT x84489
f. TXT x84490
f. TXT x84491
f. TXT x84492
f. TXT x84493
f. TXT x84494
f. TXT x84495
f. TXT x84496
f. TXT x84497
f. TXT x84498
f. TXT x84499
f. TXT x84500
f. TXT x84501
f. TXT x84502
f. TXT x84503
f. TXT x84504
f. TXT x84505
f. TXT x84506
f. TXT x84507
f. TXT x84508
f. TXT x84509
f. TXT x84510
f. TXT x84511
f. TXT x84512
f. TXT x84513
f. TXT x84514
f. TXT x84515
f. TXT x84516
f. TXT x84517
f. TXT x84518
f. TXT x84519
f. TXT x84520
f. TXT x84521
f. TXT x84522
f. TXT x84523
f. TXT x84524
f. TXT x84525
f. TXT x84526
f. TXT x84527
f. TXT x84528
f. TXT x84529
f. TXT x84530
f. TXT x84531
f. TXT x84532
f. TXT x84533
f. TXT x84534
f. TXT x84535
f. TXT x84536
f. TXT x84537
f. TXT x84538
f. TXT x84539
f. TXT x84540
f. TXT x84541
f. TXT x84542
f. TXT x84543
zy-c. NS bxb
f. TXT x84545
f. TXT x84546
f. TXT x84547
f. TXT x84548
f. TXT x84549
f. TXT x84550
f. TXT x84551
f. TXT x84552
f. TXT x84553
f. TXT x84554
f. TXT x84555
f. TXT x84556
f. TXT x84557
f. TXT x84558
f. TXT x84559
f. TXT x84560
f. TXT x84561
f. TXT x84562
f. TXT x84563
f. TXT x84564
f. TXT x84565
f. TXT x84566
f. TXT x84567
f. TXT x84568
f. TXT x84569
f. TXT x84570
f. TXT x84571
f. TXT x84572
f. TXT x84573
f. TXT x84574
f. TXT x84575
f. TXT x84576
f. TXT x84577
f. TXT x84578
f. TXT x84579
f. TXT x84580
f. TXT x84581
f. TXT x84582
f. TXT x84583
f. TXT x84584
f. TXT x84585
f. TXT x84586
f. TXT x84587
f. TXT x84588
f. TXT x84589
f. TXT x84590
f. TXT x84591
f. TXT x84592
f. TXT x84593
f. TXT x84594
f. TXT x84595
f. TXT x84596
f. TXT x84597
f. TXT x84598
f. TXT x84599
f. TXT x84600
f. TXT x84601
f. TXT x84602
f. TXT x84603
f. TXT x84604
f. TXT x84605
f. TXT x84606
f. TXT x84607
czy. NS zxy* bb azc
f. TXT x84609
f. TXT x84610
f. TXT x84611
f. TXT x84612
f. TXT x84613
f. TXT x84614
f. TXT x84615
f. TXT x84616
f. TXT x84617
f. TXT x84618
f. TXT x84619
f. TXT x84620
f. TXT x84621
f. TXT x84622
f. TXT x84623
f. TXT x84624
f. TXT x84625
f. TXT x84626
f. TXT x84627
f. TXT x84628
f. TXT x84629
f. TXT x84630
f. TXT x84631
f. TXT x84632
f. TXT x84633
f. TXT x84634
f. TXT x84635
f. TXT x84636
f. TXT x84637
f. TXT x84638
f. TXT x84639
f. TXT x84640
f. TXT x84641
f. TXT x84642
f. TXT x84643
f. TXT x84644
f. TXT x84645
f. TXT x84646
f. TXT x84647
f. TXT x84648
f. TXT x84649
f. TXT x84650
f. TXT x84651
f. TXT x84652
f. TXT x84653
f. TXT x84654
f. TXT x84655
f. TXT x84656
f. TXT x84657
f. TXT x84658
f. TXT x84659
f. TXT x84660
f. TXT x84661
f. TXT x84662
f. TXT x84663
f. TXT x84664
f. TXT x84665
f. TXT x84666
f. TXT x84667
f. TXT x84668
f. TXT x84669
f. TXT x84670
f. TXT x84671
; c
f. TXT x84673
f. TXT x84674
f. TXT x84675
f. TXT x84676
f. TXT x84677
f. TXT x84678
f. TXT x84679
f. TXT x84680
f. TXT x84681
f. TXT x84682
f. TXT x84683
f. TXT x84684
f. TXT x84685
f. TXT x84686
f. TXT x84687
f. TXT x84688
f. TXT x84689
f. TXT x84690
f. TXT x84691
f. TXT x84692
f. TXT x84693
f. TXT x84694
f. TXT x84695
f. TXT x84696
f. TXT x84697
f. TXT x84698
f. TXT x84699
f. TXT x84700
f. TXT x84701
f. TXT x84702
f. TXT x84703
f. TXT x84704
f. TXT x84705
f. TXT x84706
f. TXT x84707
f. TXT x84708
f. TXT x84709
f. TXT x84710
f. TXT x84711
f. TXT x84712
f. TXT x84713
f. TXT x84714
f. TXT x84715
f. TXT x84716
f. TXT x84717
f. TXT x84718
f. TXT x84719
f. TXT x84720
f. TXT x84721
f. TXT x84722
f. TXT x84723
f. TXT x84724
f. TXT x84725
f. TXT x84726
f. TXT x84727
f. TXT x84728
f. TXT x84729
f. TXT x84730
f. TXT x84731
f. TXT x84732
f. TXT x84733
f. TXT x84734
f. TXT x84735
$ORIGIN 00.
f. TXT x84737
f. TXT x84738
f. TXT x84739
f. TXT x84740
f. TXT x84741
f. TXT x84742
f. TXT x84743
f. TXT x84744
f. TXT x84745
f. TXT x84746
f. TXT x84747
f. TXT x84748
f. TXT x84749
f. TXT x84750
f. TXT x84751
f. TXT x84752
f. TXT x84753
f. TXT x84754
f. TXT x84755
f. TXT x84756
f. TXT x84757
f. TXT x84758
f. TXT x84759
f. TXT x84760
f. TXT x84761
f. TXT x84762
f. TXT x84763
f. TXT x84764
f. TXT x84765
f. TXT x84766
f. TXT x84767
f. TXT x84768
f. TXT x84769
f. TXT x84770
f. TXT x84771
f. TXT x84772
f. TXT x84773
f. TXT x84774
f. TXT x84775
f. TXT x84776
f. TXT x84777
f. TXT x84778
f. TXT x84779
f. TXT x84780
f. TXT x84781
f. TXT x84782
f. TXT x84783
f. TXT x84784
f. TXT x84785
f. TXT x84786
f. TXT x84787
f. TXT x84788
f. TXT x84789
f. TXT x84790
f. TXT x84791
f. TXT x84792
f. TXT x84793
f. TXT x84794
f. TXT x84795
f. TXT x84796
f. TXT x84797
f. TXT x84798
f. TXT x84799
c. A xbcb
f. TXT x84801
f. TXT x84802
f. TXT x84803
f. TXT x84804
f. TXT x84805
f. TXT x84806
f. TXT x84807
f. TXT x84808
f. TXT x84809
f. TXT x84810
f. TXT x84811
f. TXT x84812
f. TXT x84813
f. TXT x84814
f. TXT x84815
f. TXT x84816
f. TXT x84817
f. TXT x84818
f. TXT x84819
f. TXT x84820
f. TXT x84821
f. TXT x84822
f. TXT x84823
f. TXT x84824
f. TXT x84825
f. TXT x84826
f. TXT x84827
f. TXT x84828
f. TXT x84829
f. TXT x84830
f. TXT x84831
f. TXT x84832
f. TXT x84833
f. TXT x84834
f. TXT x84835
f. TXT x84836
f. TXT x84837
f. TXT x84838
f. TXT x84839
f. TXT x84840
f. TXT x84841
f. TXT x84842
f. TXT x84843
f. TXT x84844
f. TXT x84845
f. TXT x84846
f. TXT x84847
f. TXT x84848
f. TXT x84849
f. TXT x84850
f. TXT x84851
f. TXT x84852
f. TXT x84853
f. TXT x84854
f. TXT x84855
f. TXT x84856
f. TXT x84857
f. TXT x84858
f. TXT x84859
f. TXT x84860
f. TXT x84861
f. TXT x84862
f. TXT x84863
 A y*-a 0z*b
f. TXT x84865
f. TXT x84866
f. TXT x84867
f. TXT x84868
f. TXT x84869
f. TXT x84870
f. TXT x84871
f. TXT x84872
f. TXT x84873
f. TXT x84874
f. TXT x84875
f. TXT x84876
f. TXT x84877
f. TXT x84878
f. TXT x84879
f. TXT x84880
f. TXT x84881
f. TXT x84882
f. TXT x84883
f. TXT x84884
f. TXT x84885
f. TXT x84886
f. TXT x84887
f. TXT x84888
f. TXT x84889
f. TXT x84890
f. TXT x84891
f. TXT x84892
f. TXT x84893
f. TXT x84894
f. TXT x84895
f. TXT x84896
f. TXT x84897
f. TXT x84898
f. TXT x84899
f. TXT x84900
f. TXT x84901
f. TXT x84902
f. TXT x84903
f. TXT x84904
f. TXT x84905
f. TXT x84906
f. TXT x84907
f. TXT x84908
f. TXT x84909
f. TXT x84910
f. TXT x84911
f. TXT x84912
f. TXT x84913
f. TXT x84914
f. TXT x84915
f. TXT x84916
f. TXT x84917
f. TXT x84918
f. TXT x84919
f. TXT x84920
f. TXT x84921
f. TXT x84922
f. TXT x84923
f. TXT x84924
f. TXT x84925
f. TXT x84926
f. TXT x84927
*x. A b-
f. TXT x84929
f. TXT x84930
f. TXT x84931
f. TXT x84932
f. TXT x84933
f. TXT x84934
f. TXT x84935
f. TXT x84936
f. TXT x84937
f. TXT x84938
f. TXT x84939
f. TXT x84940
f. TXT x84941
f. TXT x84942
f. TXT x84943
f. TXT x84944
f. TXT x84945
f. TXT x84946
f. TXT x84947
f. TXT x84948
f. TXT x84949
f. TXT x84950
f. TXT x84951
f. TXT x84952
f. TXT x84953
f. TXT x84954
f. TXT x84955
f. TXT x84956
f. TXT x84957
f. TXT x84958
f. TXT x84959
f. TXT x84960
f. TXT x84961
f. TXT x84962
f. TXT x84963
f. TXT x84964
f. TXT x84965
f. TXT x84966
f. TXT x84967
f. TXT x84968
f. TXT x84969
f. TXT x84970
f. TXT x84971
f. TXT x84972
f. TXT x84973
f. TXT x84974
f. TXT x84975
f. TXT x84976
f. TXT x84977
f. TXT x84978
f. TXT x84979
f. TXT x84980
f. TXT x84981
f. TXT x84982
f. TXT x84983
f. TXT x84984
f. TXT x84985
f. TXT x84986
f. TXT x84987
f. TXT x84988
f. TXT x84989
f. TXT x84990
f. TXT x84991
@ A -- *x
f. TXT x84993
f. TXT x84994
f. TXT x84995
f. TXT x84996
f. TXT x84997
f. TXT x84998
f. TXT x84999
f. TXT x85000
f. TXT x85001
f. TXT x85002
f. TXT x85003
f. TXT x85004
f. TXT x85005
f. TXT x85006
f. TXT x85007
f. TXT x85008
f. TXT x85009
f. TXT x85010
f. TXT x85011
f. TXT x85012
f. TXT x85013
f. TXT x85014
f. TXT x85015
f. TXT x85016
f. TXT x85017
f. TXT x85018
f. TXT x85019
f. TXT x85020
f. TXT x85021
f. TXT x85022
f. TXT x85023
f. TXT x85024
f. TXT x85025
f. TXT x85026
f. TXT x85027
f. TXT x85028
f. TXT x85029
f. TXT x85030
f. TXT x85031
f. TXT x85032
f. TXT x85033
f. TXT x85034
f. TXT x85035
f. TXT x85036
f. TXT x85037
f. TXT x85038
f. TXT x85039
f. TXT x85040
f. TXT x85041
f. TXT x85042
f. TXT x85043
f. TXT x85044
f. TXT x85045
f. TXT x85046
f. TXT x85047
f. TXT x85048
f. TXT x85049
f. TXT x85050
f. TXT x85051
f. TXT x85052
f. TXT x85053
f. TXT x85054
f. TXT x85055
; a0a
f. TXT x85057
f. TXT x85058
f. TXT x85059
f. TXT x85060
f. TXT x85061
f. TXT x85062
f. TXT x85063
f. TXT x85064
f. TXT x85065
f. TXT x85066
f. TXT x85067
f. TXT x85068
f. TXT x85069
f. TXT x85070
f. TXT x85071
f. TXT x85072
f. TXT x85073
f. TXT x85074
f. TXT x85075
f. TXT x85076
f. TXT x85077
f. TXT x85078
f. TXT x85079
f. TXT x85080
f. TXT x85081
f. TXT x85082
f. TXT x85083
f. TXT x85084
f. TXT x85085
f. TXT x85086
f. TXT x85087
f. TXT x85088
f. TXT x85089
f. TXT x85090
f. TXT x85091
f. TXT x85092
f. TXT x85093
f. TXT x85094
f. TXT x85095
f. TXT x85096
f. TXT x85097
f. TXT x85098
f. TXT x85099
f. TXT x85100
f. TXT x85101
f. TXT x85102
f. TXT x85103
f. TXT x85104
f. TXT x85105
f. TXT x85106
f. TXT x85107
f. TXT x85108
f. TXT x85109
f. TXT x85110
f. TXT x85111
f. TXT x85112
f. TXT x85113
f. TXT x85114
f. TXT x85115
f. TXT x85116
f. TXT x85117
f. TXT x85118
f. TXT x85119
@ NS vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv xx* z
f. TXT x85121
f. TXT x85122
f. TXT x85123
f. TXT x85124
f. TXT x85125
f. TXT x85126
f. TXT x85127
f. TXT x85128
f. TXT x85129
f. TXT x85130
f. TXT x85131
f. TXT x85132
f. TXT x85133
f. TXT x85134
f. TXT x85135
f. TXT x85136
f. TXT x85137
f. TXT x85138
f. TXT x85139
f. TXT x85140
f. TXT x85141
f. TXT x85142
f. TXT x85143
f. TXT x85144
f. TXT x85145
f. TXT x85146
f. TXT x85147
f. TXT x85148
f. TXT x85149
f. TXT x85150
f. TXT x85151
f. TXT x85152
f. TXT x85153
f. TXT x85154
f. TXT x85155
f. TXT x85156
f. TXT x85157
f. TXT x85158
f. TXT x85159
f. TXT x85160
f. TXT x85161
f. TXT x85162
f. TXT x85163
f. TXT x85164
f. TXT x85165
f. TXT x85166
f. TXT x85167
f. TXT x85168
f. TXT x85169
f. TXT x85170
f. TXT x85171
f. TXT x85172
f. TXT x85173
f. TXT x85174
f. TXT x85175
f. TXT x85176
f. TXT x85177
f. TXT x85178
f. TXT x85179
f. TXT x85180
f. TXT x85181
f. TXT x85182
f. TXT x85183
-xa A b b *
f. TXT x85185
f. TXT x85186
f. TXT x85187
f. TXT x85188
f. TXT x85189
f. TXT x85190
f. TXT x85191
f. TXT x85192
f. TXT x85193
f. TXT x85194
f. TXT x85195
f. TXT x85196
f. TXT x85197
f. TXT x85198
f. TXT x85199
f. TXT x85200
f. TXT x85201
f. TXT x85202
f. TXT x85203
f. TXT x85204
f. TXT x85205
f. TXT x85206
f. TXT x85207
f. TXT x85208
f. TXT x85209
f. TXT x85210
f. TXT x85211
f. TXT x85212
f. TXT x85213
f. TXT x85214
f. TXT x85215
f. TXT x85216
f. TXT x85217
f. TXT x85218
f. TXT x85219
f. TXT x85220
f. TXT x85221
f. TXT x85222
f. TXT x85223
f. TXT x85224
f. TXT x85225
f. TXT x85226
f. TXT x85227
f. TXT x85228
f. TXT x85229
f. TXT x85230
f. TXT x85231
f. TXT x85232
f. TXT x85233
f. TXT x85234
f. TXT x85235
f. TXT x85236
f. TXT x85237
f. TXT x85238
f. TXT x85239
f. TXT x85240
f. TXT x85241
f. TXT x85242
f. TXT x85243
f. TXT x85244
f. TXT x85245
f. TXT x85246
f. TXT x85247
@ TXT cc0 c yxzb
f. TXT x85249
f. TXT x85250
f. TXT x85251
f. TXT x85252
f. TXT x85253
f. TXT x85254
f. TXT x85255
f. TXT x85256
f. TXT x85257
f. TXT x85258
f. TXT x85259
f. TXT x85260
f. TXT x85261
f. TXT x85262
f. TXT x85263
f. TXT x85264
f. TXT x85265
f. TXT x85266
f. TXT x85267
f. TXT x85268
f. TXT x85269
f. TXT x85270
f. TXT x85271
f. TXT x85272
f. TXT x85273
f. TXT x85274
f. TXT x85275
f. TXT x85276
f. TXT x85277
f. TXT x85278
f. TXT x85279
f. TXT x85280
f. TXT x85281
f. TXT x85282
f. TXT x85283
f. TXT x85284
f. TXT x85285
f. TXT x85286
f. TXT x85287
f. TXT x85288
f. TXT x85289
f. TXT x85290
f. TXT x85291
f. TXT x85292
f. TXT x85293
f. TXT x85294
f. TXT x85295
f. TXT x85296
f. TXT x85297
f. TXT x85298
f. TXT x85299
f. TXT x85300
f. TXT x85301
f. TXT x85302
f. TXT x85303
f. TXT x85304
f. TXT x85305
f. TXT x85306
f. TXT x85307
f. TXT x85308
f. TXT x85309
f. TXT x85310
f. TXT x85311
@ NS b x
f. TXT x85313
f. TXT x85314
f. TXT x85315
f. TXT x85316
f. TXT x85317
f. TXT x85318
f. TXT x85319
f. TXT x85320
f. TXT x85321
f. TXT x85322
f. TXT x85323
f. TXT x85324
f. TXT x85325
f. TXT x85326
f. TXT x85327
f. TXT x85328
f. TXT x85329
f. TXT x85330
f. TXT x85331
f. TXT x85332
f. TXT x85333
f. TXT x85334
f. TXT x85335
f. TXT x85336
f. TXT x85337
f. TXT x85338
f. TXT x85339
f. TXT x85340
f. TXT x85341
f. TXT x85342
f. TXT x85343
f. TXT x85344
f. TXT x85345
f. TXT x85346
f. TXT x85347
f. TXT x85348
f. TXT x85349
f. TXT x85350
f. TXT x85351
f. TXT x85352
f. TXT x85353
f. TXT x85354
f. TXT x85355
f. TXT x85356
f. TXT x85357
f. TXT x85358
f. TXT x85359
f. TXT x85360
f. TXT x85361
f. TXT x85362
f. TXT x85363
f. TXT x85364
f. TXT x85365
f. TXT x85366
f. TXT x85367
f. TXT x85368
f. TXT x85369
f. TXT x85370
f. TXT x85371
f. TXT x85372
f. TXT x85373
f. TXT x85374
f. TXT x85375
@ TXT z
f. TXT x85377
f. TXT x85378
f. TXT x85379
f. TXT x85380
f. TXT x85381
f. TXT x85382
f. TXT x85383
f. TXT x85384
f. TXT x85385
f. TXT x85386
f. TXT x85387
f. TXT x85388
f. TXT x85389
f. TXT x85390
f. TXT x85391
f. TXT x85392
f. TXT x85393
f. TXT x85394
f. TXT x85395
f. TXT x85396
f. TXT x85397
f. TXT x85398
f. TXT x85399
f. TXT x85400
f. TXT x85401
f. TXT x85402
f. TXT x85403
f. TXT x85404
f. TXT x85405
f. TXT x85406
f. TXT x85407
f. TXT x85408
f. TXT x85409
f. TXT x85410
f. TXT x85411
f. TXT x85412
f. TXT x85413
f. TXT x85414
f. TXT x85415
f. TXT x85416
f. TXT x85417
f. TXT x85418
f. TXT x85419
f. TXT x85420
f. TXT x85421
f. TXT x85422
f. TXT x85423
f. TXT x85424
f. TXT x85425
f. TXT x85426
f. TXT x85427
f. TXT x85428
f. TXT x85429
f. TXT x85430
f. TXT x85431
f. TXT x85432
f. TXT x85433
f. TXT x85434
f. TXT x85435
f. TXT x85436
f. TXT x85437
f. TXT x85438
f. TXT x85439
b.c-. A y a
f. TXT x85441
f. TXT x85442
f. TXT x85443
f. TXT x85444
f. TXT x85445
f. TXT x85446
f. TXT x85447
f. TXT x85448
f. TXT x85449
f. TXT x85450
f. TXT x85451
f. TXT x85452
f. TXT x85453
f. TXT x85454
f. TXT x85455
f. TXT x85456
f. TXT x85457
f. TXT x85458
f. TXT x85459
f. TXT x85460
f. TXT x85461
f. TXT x85462
f. TXT x85463
f. TXT x85464
f. TXT x85465
f. TXT x85466
f. TXT x85467
f. TXT x85468
f. TXT x85469
f. TXT x85470
f. TXT x85471
f. TXT x85472
f. TXT x85473
f. TXT x85474
f. TXT x85475
f. TXT x85476
f. TXT x85477
f. TXT x85478
f. TXT x85479
f. TXT x85480
f. TXT x85481
f. TXT x85482
f. TXT x85483
f. TXT x85484
f. TXT x85485
f. TXT x85486
f. TXT x85487
f. TXT x85488
f. TXT x85489
f. TXT x85490
f. TXT x85491
f. TXT x85492
f. TXT x85493
f. TXT x85494
f. TXT x85495
f. TXT x85496
f. TXT x85497
f. TXT x85498
f. TXT x85499
f. TXT x85500
f. TXT x85501
f. TXT x85502
f. TXT x85503
a. A yybb
f. TXT x85505
f. TXT x85506
f. TXT x85507
f. TXT x85508
f. TXT x85509
f. TXT x85510
f. TXT x85511
f. TXT x85512
f. TXT x85513
f. TXT x85514
f. TXT x85515
f. TXT x85516
f. TXT x85517
f. TXT x85518
f. TXT x85519
f. TXT x85520
f. TXT x85521
f. TXT x85522
f. TXT x85523
f. TXT x85524
f. TXT x85525
f. TXT x85526
f. TXT x85527
f. TXT x85528
f. TXT x85529
f. TXT x85530
f. TXT x85531
f. TXT x85532
f. TXT x85533
f. TXT x85534
f. TXT x85535
f. TXT x85536
f. TXT x85537
f. TXT x85538
f. TXT x85539
f. TXT x85540
f. TXT x85541
f. TXT x85542
f. TXT x85543
f. TXT x85544
f. TXT x85545
f. TXT x85546
f. TXT x85547
f. TXT x85548
f. TXT x85549
f. TXT x85550
f. TXT x85551
f. TXT x85552
f. TXT x85553
f. TXT x85554
f. TXT x85555
f. TXT x85556
f. TXT x85557
f. TXT x85558
f. TXT x85559
f. TXT x85560
f. TXT x85561
f. TXT x85562
f. TXT x85563
f. TXT x85564
f. TXT x85565
f. TXT x85566
f. TXT x85567
zyya.a*ab. TXT yc*
f. TXT x85569
f. TXT x85570
f. TXT x85571
f. TXT x85572
f. TXT x85573
f. TXT x85574
f. TXT x85575
f. TXT x85576
f. TXT x85577
f. TXT x85578
f. TXT x85579
f. TXT x85580
f. TXT x85581
f. TXT x85582
f. TXT x85583
f. TXT x85584
f. TXT x85585
f. TXT x85586
f. TXT x85587
f. TXT x85588
f. TXT x85589
f. TXT x85590
f. TXT x85591
f. TXT x85592
f. TXT x85593
f. TXT x85594
f. TXT x85595
f. TXT x85596
f. TXT x85597
f. TXT x85598
f. TXT x85599
f. TXT x85600
f. TXT x85601
f. TXT x85602
f. TXT x85603
f. TXT x85604
f. TXT x85605
f. TXT x85606
f. TXT x85607
f. TXT x85608
f. TXT x85609
f. TXT x85610
f. TXT x85611
f. TXT x85612
f. TXT x85613
f. TXT x85614
f. TXT x85615
f. TXT x85616
f. TXT x85617
f. TXT x85618
f. TXT x85619
f. TXT x85620
f. TXT x85621
f. TXT x85622
f. TXT x85623
f. TXT x85624
f. TXT x85625
f. TXT x85626
f. TXT x85627
f. TXT x85628
f. TXT x85629
f. TXT x85630
f. TXT x85631
 A -
f. TXT x85633
f. TXT x85634
f. TXT x85635
f. TXT x85636
f. TXT x85637
f. TXT x85638
f. TXT x85639
f. TXT x85640
f. TXT x85641
f. TXT x85642
f. TXT x85643
f. TXT x85644
f. TXT x85645
f. TXT x85646
f. TXT x85647
f. TXT x85648
f. TXT x85649
f. TXT x85650
f. TXT x85651
f. TXT x85652
f. TXT x85653
f. TXT x85654
f. TXT x85655
f. TXT x85656
f. TXT x85657
f. TXT x85658
f. TXT x85659
f. TXT x85660
f. TXT x85661
f. TXT x85662
f. TXT x85663
f. TXT x85664
f. TXT x85665
f. TXT x85666
f. TXT x85667
f. TXT x85668
f. TXT x85669
f. TXT x85670
f. TXT x85671
f. TXT x85672
f. TXT x85673
f. TXT x85674
f. TXT x85675
f. TXT x85676
f. TXT x85677
f. TXT x85678
f. TXT x85679
f. TXT x85680
f. TXT x85681
f. TXT x85682
f. TXT x85683
f. TXT x85684
f. TXT x85685
f. TXT x85686
f. TXT x85687
f. TXT x85688
f. TXT x85689
f. TXT x85690
f. TXT x85691
f. TXT x85692
f. TXT x85693
f. TXT x85694
f. TXT x85695
; zb*c
f. TXT x85697
f. TXT x85698
f. TXT x85699
f. TXT x85700
f. TXT x85701
f. TXT x85702
f. TXT x85703
f. TXT x85704
f. TXT x85705
f. TXT x85706
f. TXT x85707
f. TXT x85708
f. TXT x85709
f. TXT x85710
f. TXT x85711
f. TXT x85712
f. TXT x85713
f. TXT x85714
f. TXT x85715
f. TXT x85716
f. TXT x85717
f. TXT x85718
f. TXT x85719
f. TXT x85720
f. TXT x85721
f. TXT x85722
f. TXT x85723
f. TXT x85724
f. TXT x85725
f. TXT x85726
f. TXT x85727
f. TXT x85728
f. TXT x85729
f. TXT x85730
f. TXT x85731
f. TXT x85732
f. TXT x85733
f. TXT x85734
f. TXT x85735
f. TXT x85736
f. TXT x85737
f. TXT x85738
f. TXT x85739
f. TXT x85740
f. TXT x85741
f. TXT x85742
f. TXT x85743
f. TXT x85744
f. TXT x85745
f. TXT x85746
f. TXT x85747
f. TXT x85748
f. TXT x85749
f. TXT x85750
f. TXT x85751
f. TXT x85752
f. TXT x85753
f. TXT x85754
f. TXT x85755
f. TXT x85756
f. TXT x85757
f. TXT x85758
f. TXT x85759
*a0a A zc c
f. TXT x85761
f. TXT x85762
f. TXT x85763
f. TXT x85764
f. TXT x85765
f. TXT x85766
f. TXT x85767
f. TXT x85768
f. TXT x85769
f. TXT x85770
f. TXT x85771
f. TXT x85772
f. TXT x85773
f. TXT x85774
f. TXT x85775
f. TXT x85776
f. TXT x85777
f. TXT x85778
f. TXT x85779
f. TXT x85780
f. TXT x85781
f. TXT x85782
f. TXT x85783
f. TXT x85784
f. TXT x85785
f. TXT x85786
f. TXT x85787
f. TXT x85788
f. TXT x85789
f. TXT x85790
f. TXT x85791
f. TXT x85792
f. TXT x85793
f. TXT x85794
f. TXT x85795
f. TXT x85796
f. TXT x85797
f. TXT x85798
f. TXT x85799
f. TXT x85800
f. TXT x85801
f. TXT x85802
f. TXT x85803
f. TXT x85804
f. TXT x85805
f. TXT x85806
f. TXT x85807
f. TXT x85808
f. TXT x85809
f. TXT x85810
f. TXT x85811
f. TXT x85812
f. TXT x85813
f. TXT x85814
f. TXT x85815
f. TXT x85816
f. TXT x85817
f. TXT x85818
f. TXT x85819
f. TXT x85820
f. TXT x85821
f. TXT x85822
f. TXT x85823
 TXT bz--
f. TXT x85825
f. TXT x85826
f. TXT x85827
f. TXT x85828
f. TXT x85829
f. TXT x85830
f. TXT x85831
f. TXT x85832
f. TXT x85833
f. TXT x85834
f. TXT x85835
f. TXT x85836
f. TXT x85837
f. TXT x85838
f. TXT x85839
f. TXT x85840
f. TXT x85841
f. TXT x85842
f. TXT x85843
f. TXT x85844
f. TXT x85845
f. TXT x85846
f. TXT x85847
f. TXT x85848
f. TXT x85849
f. TXT x85850
f. TXT x85851
f. TXT x85852
f. TXT x85853
f. TXT x85854
f. TXT x85855
f. TXT x85856
f. TXT x85857
f. TXT x85858
f. TXT x85859
f. TXT x85860
f. TXT x85861
f. TXT x85862
f. TXT x85863
f. TXT x85864
f. TXT x85865
f. TXT x85866
f. TXT x85867
f. TXT x85868
f. TXT x85869
f. TXT x85870
f. TXT x85871
f. TXT x85872
f. TXT x85873
f. TXT x85874
f. TXT x85875
f. TXT x85876
f. TXT x85877
f. TXT x85878
f. TXT x85879
f. TXT x85880
f. TXT x85881
f. TXT x85882
f. TXT x85883
f. TXT x85884
f. TXT x85885
f. TXT x85886
f. TXT x85887
@ NS yxy
f. TXT x85889
f. TXT x85890
f. TXT x85891
f. TXT x85892
f. TXT x85893
f. TXT x85894
f. TXT x85895
f. TXT x85896
f. TXT x85897
f. TXT x85898
f. TXT x85899
f. TXT x85900
f. TXT x85901
f. TXT x85902
f. TXT x85903
f. TXT x85904
f. TXT x85905
f. TXT x85906
f. TXT x85907
f. TXT x85908
f. TXT x85909
f. TXT x85910
f. TXT x85911
f. TXT x85912
f. TXT x85913
f. TXT x85914
f. TXT x85915
f. TXT x85916
f. TXT x85917
f. TXT x85918
f. TXT x85919
f. TXT x85920
f. TXT x85921
f. TXT x85922
f. TXT x85923
f. TXT x85924
f. TXT x85925
f. TXT x85926
f. TXT x85927
f. TXT x85928
f. TXT x85929
f. TXT x85930
f. TXT x85931
f. TXT x85932
f. TXT x85933
f. TXT x85934
f. TXT x85935
f. TXT x85936
f. TXT x85937
f. TXT x85938
f. TXT x85939
f. TXT x85940
f. TXT x85941
f. TXT x85942
f. TXT x85943
f. TXT x85944
f. TXT x85945
f. TXT x85946
f. TXT x85947
f. TXT x85948
f. TXT x85949
f. TXT x85950
f. TXT x85951
; z0c-
f. TXT x85953
f. TXT x85954
f. TXT x85955
f. TXT x85956
f. TXT x85957
f. TXT x85958
f. TXT x85959
f. TXT x85960
f. TXT x85961
f. TXT x85962
f. TXT x85963
f. TXT x85964
f. TXT x85965
f. TXT x85966
f. TXT x85967
f. TXT x85968
f. TXT x85969
f. TXT x85970
f. TXT x85971
f. TXT x85972
f. TXT x85973
f. TXT x85974
f. TXT x85975
f. TXT x85976
f. TXT x85977
f. TXT x85978
f. TXT x85979
f. TXT x85980
f. TXT x85981
f. TXT x85982
f. TXT x85983
f. TXT x85984
f. TXT x85985
f. TXT x85986
f. TXT x85987
f. TXT x85988
f. TXT x85989
f. TXT x85990
f. TXT x85991
f. TXT x85992
f. TXT x85993
f. TXT x85994
f. TXT x85995
f. TXT x85996
f. TXT x85997
f. TXT x85998
f. TXT x85999
f. TXT x86000
f. TXT x86001
f. TXT x86002
f. TXT x86003
f. TXT x86004
f. TXT x86005
f. TXT x86006
f. TXT x86007
f. TXT x86008
f. TXT x86009
f. TXT x86010
f. TXT x86011
f. TXT x86012
f. TXT x86013
f. TXT x86014
f. TXT x86015
 NS xxc xa0* b-yx
f. TXT x86017
f. TXT x86018
f. TXT x86019
f. TXT x86020
f. TXT x86021
f. TXT x86022
f. TXT x86023
f. TXT x86024
f. TXT x86025
f. TXT x86026
f. TXT x86027
f. TXT x86028
f. TXT x86029
f. TXT x86030
f. TXT x86031
f. TXT x86032
f. TXT x86033
f. TXT x86034
f. TXT x86035
f. TXT x86036
f. TXT x86037
f. TXT x86038
f. TXT x86039
f. TXT x86040
f. TXT x86041
f. TXT x86042
f. TXT x86043
f. TXT x86044
f. TXT x86045
f. TXT x86046
f. TXT x86047
f. TXT x86048
f. TXT x86049
f. TXT x86050
f. TXT x86051
f. TXT x86052
f. TXT x86053
f. TXT x86054
f. TXT x86055
f. TXT x86056
f. TXT x86057
f. TXT x86058
f. TXT x86059
f. TXT x86060
f. TXT x86061
f. TXT x86062
f. TXT x86063
f. TXT x86064
f. TXT x86065
f. TXT x86066
f. TXT x86067
f. TXT x86068
f. TXT x86069
f. TXT x86070
f. TXT x86071
f. TXT x86072
f. TXT x86073
f. TXT x86074
f. TXT x86075
f. TXT x86076
f. TXT x86077
f. TXT x86078
f. TXT x86079
*ay* NS 0x- 0c bz0c
f. TXT x86081
f. TXT x86082
f. TXT x86083
f. TXT x86084
f. TXT x86085
f. TXT x86086
f. TXT x86087
f. TXT x86088
f. TXT x86089
f. TXT x86090
f. TXT x86091
f. TXT x86092
f. TXT x86093
f. TXT x86094
f. TXT x86095
f. TXT x86096
f. TXT x86097
f. TXT x86098
f. TXT x86099
f. TXT x86100
f. TXT x86101
f. TXT x86102
f. TXT x86103
f. TXT x86104
f. TXT x86105
f. TXT x86106
f. TXT x86107
f. TXT x86108
f. TXT x86109
f. TXT x86110
f. TXT x86111
f. TXT x86112
f. TXT x86113
f. TXT x86114
f. TXT x86115
f. TXT x86116
f. TXT x86117
f. TXT x86118
f. TXT x86119
f. TXT x86120
f. TXT x86121
f. TXT x86122
f. TXT x86123
f. TXT x86124
f. TXT x86125
f. TXT x86126
f. TXT x86127
f. TXT x86128
f. TXT x86129
f. TXT x86130
f. TXT x86131
f. TXT x86132
f. TXT x86133
f. TXT x86134
f. TXT x86135
f. TXT x86136
f. TXT x86137
f. TXT x86138
f. TXT x86139
f. TXT x86140
f. TXT x86141
f. TXT x86142
f. TXT x86143
x*xb.b. TXT 0z0 * aa-z
f. TXT x86145
f. TXT x86146
f. TXT x86147
f. TXT x86148
f. TXT x86149
f. TXT x86150
f. TXT x86151
f. TXT x86152
f. TXT x86153
f. TXT x86154
f. TXT x86155
f. TXT x86156
f. TXT x86157
f. TXT x86158
f. TXT x86159
f. TXT x86160
f. TXT x86161
f. TXT x86162
f. TXT x86163
f. TXT x86164
f. TXT x86165
f. TXT x86166
f. TXT x86167
f. TXT x86168
f. TXT x86169
f. TXT x86170
f. TXT x86171
f. TXT x86172
f. TXT x86173
f. TXT x86174
f. TXT x86175
f. TXT x86176
f. TXT x86177
f. TXT x86178
f. TXT x86179
f. TXT x86180
f. TXT x86181
f. TXT x86182
f. TXT x86183
f. TXT x86184
f. TXT x86185
f. TXT x86186
f. TXT x86187
f. TXT x86188
f. TXT x86189
f. TXT x86190
f. TXT x86191
f. TXT x86192
f. TXT x86193
f. TXT x86194
f. TXT x86195
f. TXT x86196
f. TXT x86197
f. TXT x86198
f. TXT x86199
f. TXT x86200
f. TXT x86201
f. TXT x86202
f. TXT x86203
f. TXT x86204
f. TXT x86205
f. TXT x86206
f. TXT x86207
; cx0
f. TXT x86209
f. TXT x86210
f. TXT x86211
f. TXT x86212
f. TXT x86213
f. TXT x86214
f. TXT x86215
f. TXT x86216
f. TXT x86217
f. TXT x86218
f. TXT x86219
f. TXT x86220
f. TXT x86221
f. TXT x86222
f. TXT x86223
f. TXT x86224
f. TXT x86225
f. TXT x86226
f. TXT x86227
f. TXT x86228
f. TXT x86229
f. TXT x86230
f. TXT x86231
f. TXT x86232
f. TXT x86233
f. TXT x86234
f. TXT x86235
f. TXT x86236
f. TXT x86237
f. TXT x86238
f. TXT x86239
f. TXT x86240
f. TXT x86241
f. TXT x86242
f. TXT x86243
f. TXT x86244
f. TXT x86245
f. TXT x86246
f. TXT x86247
f. TXT x86248
f. TXT x86249
f. TXT x86250
f. TXT x86251
f. TXT x86252
f. TXT x86253
f. TXT x86254
f. TXT x86255
f. TXT x86256
f. TXT x86257
f. TXT x86258
f. TXT x86259
f. TXT x86260
f. TXT x86261
f. TXT x86262
f. TXT x86263
f. TXT x86264
f. TXT x86265
f. TXT x86266
f. TXT x86267
f. TXT x86268
f. TXT x86269
f. TXT x86270
f. TXT x86271
@ TXT zyz xb yx
f. TXT x86273
f. TXT x86274
f. TXT x86275
f. TXT x86276
f. TXT x86277
f. TXT x86278
f. TXT x86279
f. TXT x86280
f. TXT x86281
f. TXT x86282
f. TXT x86283
f. TXT x86284
f. TXT x86285
f. TXT x86286
f. TXT x86287
f. TXT x86288
f. TXT x86289
f. TXT x86290
f. TXT x86291
f. TXT x86292
f. TXT x86293
f. TXT x86294
f. TXT x86295
f. TXT x86296
f. TXT x86297
f. TXT x86298
f. TXT x86299
f. TXT x86300
f. TXT x86301
f. TXT x86302
f. TXT x86303
f. TXT x86304
f. TXT x86305
f. TXT x86306
f. TXT x86307
f. TXT x86308
f. TXT x86309
f. TXT x86310
f. TXT x86311
f. TXT x86312
f. TXT x86313
f. TXT x86314
f. TXT x86315
f. TXT x86316
f. TXT x86317
f. TXT x86318
f. TXT x86319
f. TXT x86320
f. TXT x86321
f. TXT x86322
f. TXT x86323
f. TXT x86324
f. TXT x86325
f. TXT x86326
f. TXT x86327
f. TXT x86328
f. TXT x86329
f. TXT x86330
f. TXT x86331
f. TXT x86332
f. TXT x86333
f. TXT x86334
f. TXT x86335
@ A zy a -*0
f. TXT x86337
f. TXT x86338
f. TXT x86339
f. TXT x86340
f. TXT x86341
f. TXT x86342
f. TXT x86343
f. TXT x86344
f. TXT x86345
f. TXT x86346
f. TXT x86347
f. TXT x86348
f. TXT x86349
f. TXT x86350
f. TXT x86351
f. TXT x86352
f. TXT x86353
f. TXT x86354
f. TXT x86355
f. TXT x86356
f. TXT x86357
f. TXT x86358
f. TXT x86359
f. TXT x86360
f. TXT x86361
f. TXT x86362
f. TXT x86363
f. TXT x86364
f. TXT x86365
f. TXT x86366
f. TXT x86367
f. TXT x86368
f. TXT x86369
f. TXT x86370
f. TXT x86371
f. TXT x86372
f. TXT x86373
f. TXT x86374
f. TXT x86375
f. TXT x86376
f. TXT x86377
f. TXT x86378
f. TXT x86379
f. TXT x86380
f. TXT x86381
f. TXT x86382
f. TXT x86383
f. TXT x86384
f. TXT x86385
f. TXT x86386
f. TXT x86387
f. TXT x86388
f. TXT x86389
f. TXT x86390
f. TXT x86391
f. TXT x86392
f. TXT x86393
f. TXT x86394
f. TXT x86395
f. TXT x86396
f. TXT x86397
f. TXT x86398
f. TXT x86399
$TTL 4294967295
f. TXT x86401
f. TXT x86402
f. TXT x86403
f. TXT x86404
f. TXT x86405
f. TXT x86406
f. TXT x86407
f. TXT x86408
f. TXT x86409
f. TXT x86410
f. TXT x86411
f. TXT x86412
f. TXT x86413
f. TXT x86414
f. TXT x86415
f. TXT x86416
f. TXT x86417
f. TXT x86418
f. TXT x86419
f. TXT x86420
f. TXT x86421
f. TXT x86422
f. TXT x86423
f. TXT x86424
f. TXT x86425
f. TXT x86426
f. TXT x86427
f. TXT x86428
f. TXT x86429
f. TXT x86430
f. TXT x86431
f. TXT x86432
f. TXT x86433
f. TXT x86434
f. TXT x86435
f. TXT x86436
f. TXT x86437
f. TXT x86438
f. TXT x86439
f. TXT x86440
f. TXT x86441
f. TXT x86442
f. TXT x86443
f. TXT x86444
f. TXT x86445
f. TXT x86446
f. TXT x86447
f. TXT x86448
f. TXT x86449
f. TXT x86450
f. TXT x86451
f. TXT x86452
f. TXT x86453
f. TXT x86454
f. TXT x86455
f. TXT x86456
f. TXT x86457
f. TXT x86458
f. TXT x86459
f. TXT x86460
f. TXT x86461
f. TXT x86462
f. TXT x86463

f. TXT x86465
f. TXT x86466
f. TXT x86467
f. TXT x86468
f. TXT x86469
f. TXT x86470
f. TXT x86471
f. TXT x86472
f. TXT x86473
f. TXT x86474
f. TXT x86475
f. TXT x86476
f. TXT x86477
f. TXT x86478
f. TXT x86479
f. TXT x86480
f. TXT x86481
f. TXT x86482
f. TXT x86483
f. TXT x86484
f. TXT x86485
f. TXT x86486
f. TXT x86487
f. TXT x86488
f. TXT x86489
f. TXT x86490
f. TXT x86491
f. TXT x86492
f. TXT x86493
f. TXT x86494
f. TXT x86495
f. TXT x86496
f. TXT x86497
f. TXT x86498
f. TXT x86499
f. TXT x86500
f. TXT x86501
f. TXT x86502
f. TXT x86503
f. TXT x86504
f. TXT x86505
f. TXT x86506
f. TXT x86507
f. TXT x86508
f. TXT x86509
f. TXT x86510
f. TXT x86511
f. TXT x86512
f. TXT x86513
f. TXT x86514
f. TXT x86515
f. TXT x86516
f. TXT x86517
f. TXT x86518
f. TXT x86519
f. TXT x86520
f. TXT x86521
f. TXT x86522
f. TXT x86523
f. TXT x86524
f. TXT x86525
f. TXT x86526
f. TXT x86527
cx-. TXT -
f. TXT x86529
f. TXT x86530
f. TXT x86531
f. TXT x86532
f. TXT x86533
f. TXT x86534
f. TXT x86535
f. TXT x86536
f. TXT x86537
f. TXT x86538
f. TXT x86539
f. TXT x86540
f. TXT x86541
f. TXT x86542
f. TXT x86543
f. TXT x86544
f. TXT x86545
f. TXT x86546
f. TXT x86547
f. TXT x86548
f. TXT x86549
f. TXT x86550
f. TXT x86551
f. TXT x86552
f. TXT x86553
f. TXT x86554
f. TXT x86555
f. TXT x86556
f. TXT x86557
f. TXT x86558
f. TXT x86559
f. TXT x86560
f. TXT x86561
f. TXT x86562
f. TXT x86563
f. TXT x86564
f. TXT x86565
f. TXT x86566
f. TXT x86567
f. TXT x86568
f. TXT x86569
f. TXT x86570
f. TXT x86571
f. TXT x86572
f. TXT x86573
f. TXT x86574
f. TXT x86575
f. TXT x86576
f. TXT x86577
f. TXT x86578
f. TXT x86579
f. TXT x86580
f. TXT x86581
f. TXT x86582
f. TXT x86583
f. TXT x86584
f. TXT x86585
f. TXT x86586
f. TXT x86587
f. TXT x86588
f. TXT x86589
f. TXT x86590
f. TXT x86591
 TXT yc *bz yy
f. TXT x86593
f. TXT x86594
f. TXT x86595
f. TXT x86596
f. TXT x86597
f. TXT x86598
f. TXT x86599
f. TXT x86600
f. TXT x86601
f. TXT x86602
f. TXT x86603
f. TXT x86604
f. TXT x86605
f. TXT x86606
f. TXT x86607
f. TXT x86608
f. TXT x86609
f. TXT x86610
f. TXT x86611
f. TXT x86612
f. TXT x86613
f. TXT x86614
f. TXT x86615
f. TXT x86616
f. TXT x86617
f. TXT x86618
f. TXT x86619
f. TXT x86620
f. TXT x86621
f. TXT x86622
f. TXT x86623
f. TXT x86624
f. TXT x86625
f. TXT x86626
f. TXT x86627
f. TXT x86628
f. TXT x86629
f. TXT x86630
f. TXT x86631
f. TXT x86632
f. TXT x86633
f. TXT x86634
f. TXT x86635
f. TXT x86636
f. TXT x86637
f. TXT x86638
f. TXT x86639
f. TXT x86640
f. TXT x86641
f. TXT x86642
f. TXT x86643
f. TXT x86644
f. TXT x86645
f. TXT x86646
f. TXT x86647
f. TXT x86648
f. TXT x86649
f. TXT x86650
f. TXT x86651
f. TXT x86652
f. TXT x86653
f. TXT x86654
f. TXT x86655
-0zy A *-c azzx vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
f. TXT x86657
f. TXT x86658
f. TXT x86659
f. TXT x86660
f. TXT x86661
f. TXT x86662
f. TXT x86663
f. TXT x86664
f. TXT x86665
f. TXT x86666
f. TXT x86667
f. TXT x86668
f. TXT x86669
f. TXT x86670
f. TXT x86671
f. TXT x86672
f. TXT x86673
f. TXT x86674
f. TXT x86675
f. TXT x86676
f. TXT x86677
f. TXT x86678
f. TXT x86679
f. TXT x86680
f. TXT x86681
f. TXT x86682
f. TXT x86683
f. TXT x86684
f. TXT x86685
f. TXT x86686
f. TXT x86687
f. TXT x86688
f. TXT x86689
f. TXT x86690
f. TXT x86691
f. TXT x86692
f. TXT x86693
f. TXT x86694
f. TXT x86695
f. TXT x86696
f. TXT x86697
f. TXT x86698
f. TXT x86699
f. TXT x86700
f. TXT x86701
f. TXT x86702
f. TXT x86703
f. TXT x86704
f. TXT x86705
f. TXT x86706
f. TXT x86707
f. TXT x86708
f. TXT x86709
f. TXT x86710
f. TXT x86711
f. TXT x86712
f. TXT x86713
f. TXT x86714
f. TXT x86715
f. TXT x86716
f. TXT x86717
f. TXT x86718
f. TXT x86719
; b*
f. TXT x86721
f. TXT x86722
f. TXT x86723
f. TXT x86724
f. TXT x86725
f. TXT x86726
f. TXT x86727
f. TXT x86728
f. TXT x86729
f. TXT x86730
f. TXT x86731
f. TXT x86732
f. TXT x86733
f. TXT x86734
f. TXT x86735
f. TXT x86736
f. TXT x86737
f. TXT x86738
f. TXT x86739
f. TXT x86740
f. TXT x86741
f. TXT x86742
f. TXT x86743
f. TXT x86744
f. TXT x86745
f. TXT x86746
f. TXT x86747
f. TXT x86748
f. TXT x86749
f. TXT x86750
f. TXT x86751
f. TXT x86752
f. TXT x86753
f. TXT x86754
f. TXT x86755
f. TXT x86756
f. TXT x86757
f. TXT x86758
f. TXT x86759
f. TXT x86760
f. TXT x86761
f. TXT x86762
f. TXT x86763
f. TXT x86764
f. TXT x86765
f. TXT x86766
f. TXT x86767
f. TXT x86768
f. TXT x86769
f. TXT x86770
f. TXT x86771
f. TXT x86772
f. TXT x86773
f. TXT x86774
f. TXT x86775
f. TXT x86776
f. TXT x86777
f. TXT x86778
f. TXT x86779
f. TXT x86780
f. TXT x86781
f. TXT x86782
f. TXT x86783
 A a*c z* x
f. TXT x86785
f. TXT x86786
f. TXT x86787
f. TXT x86788
f. TXT x86789
f. TXT x86790
f. TXT x86791
f. TXT x86792
f. TXT x86793
f. TXT x86794
f. TXT x86795
f. TXT x86796
f. TXT x86797
f. TXT x86798
f. TXT x86799
f. TXT x86800
f. TXT x86801
f. TXT x86802
f. TXT x86803
f. TXT x86804
f. TXT x86805
f. TXT x86806
f. TXT x86807
f. TXT x86808
f. TXT x86809
f. TXT x86810
f. TXT x86811
f. TXT x86812
f. TXT x86813
f. TXT x86814
f. TXT x86815
f. TXT x86816
f. TXT x86817
f. TXT x86818
f. TXT x86819
f. TXT x86820
f. TXT x86821
f. TXT x86822
f. TXT x86823
f. TXT x86824
f. TXT x86825
f. TXT x86826
f. TXT x86827
f. TXT x86828
f. TXT x86829
f. TXT x86830
f. TXT x86831
f. TXT x86832
f. TXT x86833
f. TXT x86834
f. TXT x86835
f. TXT x86836
f. TXT x86837
f. TXT x86838
f. TXT x86839
f. TXT x86840
f. TXT x86841
f. TXT x86842
f. TXT x86843
f. TXT x86844
f. TXT x86845
f. TXT x86846
f. TXT x86847
-- A c*a
f. TXT x86849
f. TXT x86850
f. TXT x86851
f. TXT x86852
f. TXT x86853
f. TXT x86854
f. TXT x86855
f. TXT x86856
f. TXT x86857
f. TXT x86858
f. TXT x86859
f. TXT x86860
f. TXT x86861
f. TXT x86862
f. TXT x86863
f. TXT x86864
f. TXT x86865
f. TXT x86866
f. TXT x86867
f. TXT x86868
f. TXT x86869
f. TXT x86870
f. TXT x86871
f. TXT x86872
f. TXT x86873
f. TXT x86874
f. TXT x86875
f. TXT x86876
f. TXT x86877
f. TXT x86878
f. TXT x86879
f. TXT x86880
f. TXT x86881
f. TXT x86882
f. TXT x86883
f. TXT x86884
f. TXT x86885
f. TXT x86886
f. TXT x86887
f. TXT x86888
f. TXT x86889
f. TXT x86890
f. TXT x86891
f. TXT x86892
f. TXT x86893
f. TXT x86894
f. TXT x86895
f. TXT x86896
f. TXT x86897
f. TXT x86898
f. TXT x86899
f. TXT x86900
f. TXT x86901
f. TXT x86902
f. TXT x86903
f. TXT x86904
f. TXT x86905
f. TXT x86906
f. TXT x86907
f. TXT x86908
f. TXT x86909
f. TXT x86910
f. TXT x86911
c*za. A axyb 0
f. TXT x86913
f. TXT x86914
f. TXT x86915
f. TXT x86916
f. TXT x86917
f. TXT x86918
f. TXT x86919
f. TXT x86920
f. TXT x86921
f. TXT x86922
f. TXT x86923
f. TXT x86924
f. TXT x86925
f. TXT x86926
f. TXT x86927
f. TXT x86928
f. TXT x86929
f. TXT x86930
f. TXT x86931
f. TXT x86932
f. TXT x86933
f. TXT x86934
f. TXT x86935
f. TXT x86936
f. TXT x86937
f. TXT x86938
f. TXT x86939
f. TXT x86940
f. TXT x86941
f. TXT x86942
f. TXT x86943
f. TXT x86944
f. TXT x86945
f. TXT x86946
f. TXT x86947
f. TXT x86948
f. TXT x86949
f. TXT x86950
f. TXT x86951
f. TXT x86952
f. TXT x86953
f. TXT x86954
f. TXT x86955
f. TXT x86956
f. TXT x86957
f. TXT x86958
f. TXT x86959
f. TXT x86960
f. TXT x86961
f. TXT x86962
f. TXT x86963
f. TXT x86964
f. TXT x86965
f. TXT x86966
f. TXT x86967
f. TXT x86968
f. TXT x86969
f. TXT x86970
f. TXT x86971
f. TXT x86972
f. TXT x86973
f. TXT x86974
f. TXT x86975
ab. NS -zza bx
f. TXT x86977
f. TXT x86978
f. TXT x86979
f. TXT x86980
f. TXT x86981
f. TXT x86982
f. TXT x86983
f. TXT x86984
f. TXT x86985
f. TXT x86986
f. TXT x86987
f. TXT x86988
f. TXT x86989
f. TXT x86990
f. TXT x86991
f. TXT x86992
f. TXT x86993
f. TXT x86994
f. TXT x86995
f. TXT x86996
f. TXT x86997
f. TXT x86998
f. TXT x86999
f. TXT x87000
f. TXT x87001
f. TXT x87002
f. TXT x87003
f. TXT x87004
f. TXT x87005
f. TXT x87006
f. TXT x87007
f. TXT x87008
f. TXT x87009
f. TXT x87010
f. TXT x87011
f. TXT x87012
f. TXT x87013
f. TXT x87014
f. TXT x87015
f. TXT x87016
f. TXT x87017
f. TXT x87018
f. TXT x87019
f. TXT x87020
f. TXT x87021
f. TXT x87022
f. TXT x87023
f. TXT x87024
f. TXT x87025
f. TXT x87026
f. TXT x87027
f. TXT x87028
f. TXT x87029
f. TXT x87030
f. TXT x87031
f. TXT x87032
f. TXT x87033
f. TXT x87034
f. TXT x87035
f. TXT x87036
f. TXT x87037
f. TXT x87038
f. TXT x87039
@ TXT 00 ybby
f. TXT x87041
f. TXT x87042
f. TXT x87043
f. TXT x87044
f. TXT x87045
f. TXT x87046
f. TXT x87047
f. TXT x87048
f. TXT x87049
f. TXT x87050
f. TXT x87051
f. TXT x87052
f. TXT x87053
f. TXT x87054
f. TXT x87055
f. TXT x87056
f. TXT x87057
f. TXT x87058
f. TXT x87059
f. TXT x87060
f. TXT x87061
f. TXT x87062
f. TXT x87063
f. TXT x87064
f. TXT x87065
f. TXT x87066
f. TXT x87067
f. TXT x87068
f. TXT x87069
f. TXT x87070
f. TXT x87071
f. TXT x87072
f. TXT x87073
f. TXT x87074
f. TXT x87075
f. TXT x87076
f. TXT x87077
f. TXT x87078
f. TXT x87079
f. TXT x87080
f. TXT x87081
f. TXT x87082
f. TXT x87083
f. TXT x87084
f. TXT x87085
f. TXT x87086
f. TXT x87087
f. TXT x87088
f. TXT x87089
f. TXT x87090
f. TXT x87091
f. TXT x87092
f. TXT x87093
f. TXT x87094
f. TXT x87095
f. TXT x87096
f. TXT x87097
f. TXT x87098
f. TXT x87099
f. TXT x87100
f. TXT x87101
f. TXT x87102
f. TXT x87103
; -a0*
f. TXT x87105
f. TXT x87106
f. TXT x87107
f. TXT x87108
f. TXT x87109
f. TXT x87110
f. TXT x87111
f. TXT x87112
f. TXT x87113
f. TXT x87114
f. TXT x87115
f. TXT x87116
f. TXT x87117
f. TXT x87118
f. TXT x87119
f. TXT x87120
f. TXT x87121
f. TXT x87122
f. TXT x87123
f. TXT x87124
f. TXT x87125
f. TXT x87126
f. TXT x87127
f. TXT x87128
f. TXT x87129
f. TXT x87130
f. TXT x87131
f. TXT x87132
f. TXT x87133
f. TXT x87134
f. TXT x87135
f. TXT x87136
f. TXT x87137
f. TXT x87138
f. TXT x87139
f. TXT x87140
f. TXT x87141
f. TXT x87142
f. TXT x87143
f. TXT x87144
f. TXT x87145
f. TXT x87146
f. TXT x87147
f. TXT x87148
f. TXT x87149
f. TXT x87150
f. TXT x87151
f. TXT x87152
f. TXT x87153
f. TXT x87154
f. TXT x87155
f. TXT x87156
f. TXT x87157
f. TXT x87158
f. TXT x87159
f. TXT x87160
f. TXT x87161
f. TXT x87162
f. TXT x87163
f. TXT x87164
f. TXT x87165
f. TXT x87166
f. TXT x87167
bxx* TXT c**b x*y yyx
f. TXT x87169
f. TXT x87170
f. TXT x87171
f. TXT x87172
f. TXT x87173
f. TXT x87174
f. TXT x87175
f. TXT x87176
f. TXT x87177
f. TXT x87178
f. TXT x87179
f. TXT x87180
f. TXT x87181
f. TXT x87182
f. TXT x87183
f. TXT x87184
f. TXT x87185
f. TXT x87186
f. TXT x87187
f. TXT x87188
f. TXT x87189
f. TXT x87190
f. TXT x87191
f. TXT x87192
f. TXT x87193
f. TXT x87194
f. TXT x87195
f. TXT x87196
f. TXT x87197
f. TXT x87198
f. TXT x87199
f. TXT x87200
f. TXT x87201
f. TXT x87202
f. TXT x87203
f. TXT x87204
f. TXT x87205
f. TXT x87206
f. TXT x87207
f. TXT x87208
f. TXT x87209
f. TXT x87210
f. TXT x87211
f. TXT x87212
f. TXT x87213
f. TXT x87214
f. TXT x87215
f. TXT x87216
f. TXT x87217
f. TXT x87218
f. TXT x87219
f. TXT x87220
f. TXT x87221
f. TXT x87222
f. TXT x87223
f. TXT x87224
f. TXT x87225
f. TXT x87226
f. TXT x87227
f. TXT x87228
f. TXT x87229
f. TXT x87230
f. TXT x87231
 NS ** x0c- yay
f. TXT x87233
f. TXT x87234
f. TXT x87235
f. TXT x87236
f. TXT x87237
f. TXT x87238
f. TXT x87239
f. TXT x87240
f. TXT x87241
f. TXT x87242
f. TXT x87243
f. TXT x87244
f. TXT x87245
f. TXT x87246
f. TXT x87247
f. TXT x87248
f. TXT x87249
f. TXT x87250
f. TXT x87251
f. TXT x87252
f. TXT x87253
f. TXT x87254
f. TXT x87255
f. TXT x87256
f. TXT x87257
f. TXT x87258
f. TXT x87259
f. TXT x87260
f. TXT x87261
f. TXT x87262
f. TXT x87263
f. TXT x87264
f. TXT x87265
f. TXT x87266
f. TXT x87267
f. TXT x87268
f. TXT x87269
f. TXT x87270
f. TXT x87271
f. TXT x87272
f. TXT x87273
f. TXT x87274
f. TXT x87275
f. TXT x87276
f. TXT x87277
f. TXT x87278
f. TXT x87279
f. TXT x87280
f. TXT x87281
f. TXT x87282
f. TXT x87283
f. TXT x87284
f. TXT x87285
f. TXT x87286
f. TXT x87287
f. TXT x87288
f. TXT x87289
f. TXT x87290
f. TXT x87291
f. TXT x87292
f. TXT x87293
f. TXT x87294
f. TXT x87295

f. TXT x87297
f. TXT x87298
f. TXT x87299
f. TXT x87300
f. TXT x87301
f. TXT x87302
f. TXT x87303
f. TXT x87304
f. TXT x87305
f. TXT x87306
f. TXT x87307
f. TXT x87308
f. TXT x87309
f. TXT x87310
f. TXT x87311
f. TXT x87312
f. TXT x87313
f. TXT x87314
f. TXT x87315
f. TXT x87316
f. TXT x87317
f. TXT x87318
f. TXT x87319
f. TXT x87320
f. TXT x87321
f. TXT x87322
f. TXT x87323
f. TXT x87324
f. TXT x87325
f. TXT x87326
f. TXT x87327
f. TXT x87328
f. TXT x87329
f. TXT x87330
f. TXT x87331
f. TXT x87332
f. TXT x87333
f. TXT x87334
f. TXT x87335
f. TXT x87336
f. TXT x87337
f. TXT x87338
f. TXT x87339
f. TXT x87340
f. TXT x87341
f. TXT x87342
f. TXT x87343
f. TXT x87344
f. TXT x87345
f. TXT x87346
f. TXT x87347
f. TXT x87348
f. TXT x87349
f. TXT x87350
f. TXT x87351
f. TXT x87352
f. TXT x87353
f. TXT x87354
f. TXT x87355
f. TXT x87356
f. TXT x87357
f. TXT x87358
f. TXT x87359
*xz NS c-xa -y
f. TXT x87361
f. TXT x87362
f. TXT x87363
f. TXT x87364
f. TXT x87365
f. TXT x87366
f. TXT x87367
f. TXT x87368
f. TXT x87369
f. TXT x87370
f. TXT x87371
f. TXT x87372
f. TXT x87373
f. TXT x87374
f. TXT x87375
f. TXT x87376
f. TXT x87377
f. TXT x87378
f. TXT x87379
f. TXT x87380
f. TXT x87381
f. TXT x87382
f. TXT x87383
f. TXT x87384
f. TXT x87385
f. TXT x87386
f. TXT x87387
f. TXT x87388
f. TXT x87389
f. TXT x87390
f. TXT x87391
f. TXT x87392
f. TXT x87393
f. TXT x87394
f. TXT x87395
f. TXT x87396
f. TXT x87397
f. TXT x87398
f. TXT x87399
f. TXT x87400
f. TXT x87401
f. TXT x87402
f. TXT x87403
f. TXT x87404
f. TXT x87405
f. TXT x87406
f. TXT x87407
f. TXT x87408
f. TXT x87409
f. TXT x87410
f. TXT x87411
f. TXT x87412
f. TXT x87413
f. TXT x87414
f. TXT x87415
f. TXT x87416
f. TXT x87417
f. TXT x87418
f. TXT x87419
f. TXT x87420
f. TXT x87421
f. TXT x87422
f. TXT x87423
 TXT x*c
f. TXT x87425
f. TXT x87426
f. TXT x87427
f. TXT x87428
f. TXT x87429
f. TXT x87430
f. TXT x87431
f. TXT x87432
f. TXT x87433
f. TXT x87434
f. TXT x87435
f. TXT x87436
f. TXT x87437
f. TXT x87438
f. TXT x87439
f. TXT x87440
f. TXT x87441
f. TXT x87442
f. TXT x87443
f. TXT x87444
f. TXT x87445
f. TXT x87446
f. TXT x87447
f. TXT x87448
f. TXT x87449
f. TXT x87450
f. TXT x87451
f. TXT x87452
f. TXT x87453
f. TXT x87454
f. TXT x87455
f. TXT x87456
f. TXT x87457
f. TXT x87458
f. TXT x87459
f. TXT x87460
f. TXT x87461
f. TXT x87462
f. TXT x87463
f. TXT x87464
f. TXT x87465
f. TXT x87466
f. TXT x87467
f. TXT x87468
f. TXT x87469
f. TXT x87470
f. TXT x87471
f. TXT x87472
f. TXT x87473
f. TXT x87474
f. TXT x87475
f. TXT x87476
f. TXT x87477
f. TXT x87478
f. TXT x87479
f. TXT x87480
f. TXT x87481
f. TXT x87482
f. TXT x87483
f. TXT x87484
f. TXT x87485
f. TXT x87486
f. TXT x87487
bc-. NS yxb-
f. TXT x87489
f. TXT x87490
f. TXT x87491
f. TXT x87492
f. TXT x87493
f. TXT x87494
f. TXT x87495
f. TXT x87496
f. TXT x87497
f. TXT x87498
f. TXT x87499
f. TXT x87500
f. TXT x87501
f. TXT x87502
f. TXT x87503
f. TXT x87504
f. TXT x87505
f. TXT x87506
f. TXT x87507
f. TXT x87508
f. TXT x87509
f. TXT x87510
f. TXT x87511
f. TXT x87512
f. TXT x87513
f. TXT x87514
f. TXT x87515
f. TXT x87516
f. TXT x87517
f. TXT x87518
f. TXT x87519
f. TXT x87520
f. TXT x87521
f. TXT x87522
f. TXT x87523
f. TXT x87524
f. TXT x87525
f. TXT x87526
f. TXT x87527
f. TXT x87528
f. TXT x87529
f. TXT x87530
f. TXT x87531
f. TXT x87532
f. TXT x87533
f. TXT x87534
f. TXT x87535
f. TXT x87536
f. TXT x87537
f. TXT x87538
f. TXT x87539
f. TXT x87540
f. TXT x87541
f. TXT x87542
f. TXT x87543
f. TXT x87544
f. TXT x87545
f. TXT x87546
f. TXT x87547
f. TXT x87548
f. TXT x87549
f. TXT x87550
f. TXT x87551
 TXT x
f. TXT x87553
f. TXT x87554
f. TXT x87555
f. TXT x87556
f. TXT x87557
f. TXT x87558
f. TXT x87559
f. TXT x87560
f. TXT x87561
f. TXT x87562
f. TXT x87563
f. TXT x87564
f. TXT x87565
f. TXT x87566
f. TXT x87567
f. TXT x87568
f. TXT x87569
f. TXT x87570
f. TXT x87571
f. TXT x87572
f. TXT x87573
f. TXT x87574
f. TXT x87575
f. TXT x87576
f. TXT x87577
f. TXT x87578
f. TXT x87579
f. TXT x87580
f. TXT x87581
f. TXT x87582
f. TXT x87583
f. TXT x87584
f. TXT x87585
f. TXT x87586
f. TXT x87587
f. TXT x87588
f. TXT x87589
f. TXT x87590
f. TXT x87591
f. TXT x87592
f. TXT x87593
f. TXT x87594
f. TXT x87595
f. TXT x87596
f. TXT x87597
f. TXT x87598
f. TXT x87599
f. TXT x87600
f. TXT x87601
f. TXT x87602
f. TXT x87603
f. TXT x87604
f. TXT x87605
f. TXT x87606
f. TXT x87607
f. TXT x87608
f. TXT x87609
f. TXT x87610
f. TXT x87611
f. TXT x87612
f. TXT x87613
f. TXT x87614
f. TXT x87615
bxay NS -
f. TXT x87617
f. TXT x87618
f. TXT x87619
f. TXT x87620
f. TXT x87621
f. TXT x87622
f. TXT x87623
f. TXT x87624
f. TXT x87625
f. TXT x87626
f. TXT x87627
f. TXT x87628
f. TXT x87629
f. TXT x87630
f. TXT x87631
f. TXT x87632
f. TXT x87633
f. TXT x87634
f. TXT x87635
f. TXT x87636
f. TXT x87637
f. TXT x87638
f. TXT x87639
f. TXT x87640
f. TXT x87641
f. TXT x87642
f. TXT x87643
f. TXT x87644
f. TXT x87645
f. TXT x87646
f. TXT x87647
f. TXT x87648
f. TXT x87649
f. TXT x87650
f. TXT x87651
f. TXT x87652
f. TXT x87653
f. TXT x87654
f. TXT x87655
f. TXT x87656
f. TXT x87657
f. TXT x87658
f. TXT x87659
f. TXT x87660
f. TXT x87661
f. TXT x87662
f. TXT x87663
f. TXT x87664
f. TXT x87665
f. TXT x87666
f. TXT x87667
f. TXT x87668
f. TXT x87669
f. TXT x87670
f. TXT x87671
f. TXT x87672
f. TXT x87673
f. TXT x87674
f. TXT x87675
f. TXT x87676
f. TXT x87677
f. TXT x87678
f. TXT x87679
bzcx. NS *zyz b*
f. TXT x87681
f. TXT x87682
f. TXT x87683
f. TXT x87684
f. TXT x87685
f. TXT x87686
f. TXT x87687
f. TXT x87688
f. TXT x87689
f. TXT x87690
f. TXT x87691
f. TXT x87692
f. TXT x87693
f. TXT x87694
f. TXT x87695
f. TXT x87696
f. TXT x87697
f. TXT x87698
f. TXT x87699
f. TXT x87700
f. TXT x87701
f. TXT x87702
f. TXT x87703
f. TXT x87704
f. TXT x87705
f. TXT x87706
f. TXT x87707
f. TXT x87708
f. TXT x87709
f. TXT x87710
f. TXT x87711
f. TXT x87712
f. TXT x87713
f. TXT x87714
f. TXT x87715
f. TXT x87716
f. TXT x87717
f. TXT x87718
f. TXT x87719
f. TXT x87720
f. TXT x87721
f. TXT x87722
f. TXT x87723
f. TXT x87724
f. TXT x87725
f. TXT x87726
f. TXT x87727
f. TXT x87728
f. TXT x87729
f. TXT x87730
f. TXT x87731
f. TXT x87732
f. TXT x87733
f. TXT x87734
f. TXT x87735
f. TXT x87736
f. TXT x87737
f. TXT x87738
f. TXT x87739
f. TXT x87740
f. TXT x87741
f. TXT x87742
f. TXT x87743
 A * abz0
f. TXT x87745
f. TXT x87746
f. TXT x87747
f. TXT x87748
f. TXT x87749
f. TXT x87750
f. TXT x87751
f. TXT x87752
f. TXT x87753
f. TXT x87754
f. TXT x87755
f. TXT x87756
f. TXT x87757
f. TXT x87758
f. TXT x87759
f. TXT x87760
f. TXT x87761
f. TXT x87762
f. TXT x87763
f. TXT x87764
f. TXT x87765
f. TXT x87766
f. TXT x87767
f. TXT x87768
f. TXT x87769
f. TXT x87770
f. TXT x87771
f. TXT x87772
f. TXT x87773
f. TXT x87774
f. TXT x87775
f. TXT x87776
f. TXT x87777
f. TXT x87778
f. TXT x87779
f. TXT x87780
f. TXT x87781
f. TXT x87782
f. TXT x87783
f. TXT x87784
f. TXT x87785
f. TXT x87786
f. TXT x87787
f. TXT x87788
f. TXT x87789
f. TXT x87790
f. TXT x87791
f. TXT x87792
f. TXT x87793
f. TXT x87794
f. TXT x87795
f. TXT x87796
f. TXT x87797
f. TXT x87798
f. TXT x87799
f. TXT x87800
f. TXT x87801
f. TXT x87802
f. TXT x87803
f. TXT x87804
f. TXT x87805
f. TXT x87806
f. TXT x87807
@ NS z
f. TXT x87809
f. TXT x87810
f. TXT x87811
f. TXT x87812
f. TXT x87813
f. TXT x87814
f. TXT x87815
f. TXT x87816
f. TXT x87817
f. TXT x87818
f. TXT x87819
f. TXT x87820
f. TXT x87821
f. TXT x87822
f. TXT x87823
f. TXT x87824
f. TXT x87825
f. TXT x87826
f. TXT x87827
f. TXT x87828
f. TXT x87829
f. TXT x87830
f. TXT x87831
f. TXT x87832
f. TXT x87833
f. TXT x87834
f. TXT x87835
f. TXT x87836
f. TXT x87837
f. TXT x87838
f. TXT x87839
f. TXT x87840
f. TXT x87841
f. TXT x87842
f. TXT x87843
f. TXT x87844
f. TXT x87845
f. TXT x87846
f. TXT x87847
f. TXT x87848
f. TXT x87849
f. TXT x87850
f. TXT x87851
f. TXT x87852
f. TXT x87853
f. TXT x87854
f. TXT x87855
f. TXT x87856
f. TXT x87857
f. TXT x87858
f. TXT x87859
f. TXT x87860
f. TXT x87861
f. TXT x87862
f. TXT x87863
f. TXT x87864
f. TXT x87865
f. TXT x87866
f. TXT x87867
f. TXT x87868
f. TXT x87869
f. TXT x87870
f. TXT x87871
 NS *xya z0y ya
f. TXT x87873
f. TXT x87874
f. TXT x87875
f. TXT x87876
f. TXT x87877
f. TXT x87878
f. TXT x87879
f. TXT x87880
f. TXT x87881
f. TXT x87882
f. TXT x87883
f. TXT x87884
f. TXT x87885
f. TXT x87886
f. TXT x87887
f. TXT x87888
f. TXT x87889
f. TXT x87890
f. TXT x87891
f. TXT x87892
f. TXT x87893
f. TXT x87894
f. TXT x87895
f. TXT x87896
f. TXT x87897
f. TXT x87898
f. TXT x87899
f. TXT x87900
f. TXT x87901
f. TXT x87902
f. TXT x87903
f. TXT x87904
f. TXT x87905
f. TXT x87906
f. TXT x87907
f. TXT x87908
f. TXT x87909
f. TXT x87910
f. TXT x87911
f. TXT x87912
f. TXT x87913
f. TXT x87914
f. TXT x87915
f. TXT x87916
f. TXT x87917
f. TXT x87918
f. TXT x87919
f. TXT x87920
f. TXT x87921
f. TXT x87922
f. TXT x87923
f. TXT x87924
f. TXT x87925
f. TXT x87926
f. TXT x87927
f. TXT x87928
f. TXT x87929
f. TXT x87930
f. TXT x87931
f. TXT x87932
f. TXT x87933
f. TXT x87934
f. TXT x87935
; x
f. TXT x87937
f. TXT x87938
f. TXT x87939
f. TXT x87940
f. TXT x87941
f. TXT x87942
f. TXT x87943
f. TXT x87944
f. TXT x87945
f. TXT x87946
f. TXT x87947
f. TXT x87948
f. TXT x87949
f. TXT x87950
f. TXT x87951
f. TXT x87952
f. TXT x87953
f. TXT x87954
f. TXT x87955
f. TXT x87956
f. TXT x87957
f. TXT x87958
f. TXT x87959
f. TXT x87960
f. TXT x87961
f. TXT x87962
f. TXT x87963
f. TXT x87964
f. TXT x87965
f. TXT x87966
f. TXT x87967
f. TXT x87968
f. TXT x87969
f. TXT x87970
f. TXT x87971
f. TXT x87972
f. TXT x87973
f. TXT x87974
f. TXT x87975
f. TXT x87976
f. TXT x87977
f. TXT x87978
f. TXT x87979
f. TXT x87980
f. TXT x87981
f. TXT x87982
f. TXT x87983
f. TXT x87984
f. TXT x87985
f. TXT x87986
f. TXT x87987
f. TXT x87988
f. TXT x87989
f. TXT x87990
f. TXT x87991
f. TXT x87992
f. TXT x87993
f. TXT x87994
f. TXT x87995
f. TXT x87996
f. TXT x87997
f. TXT x87998
f. TXT x87999
0a0 NS c- c0b* z
f. TXT x88001
f. TXT x88002
f. TXT x88003
f. TXT x88004
f. TXT x88005
f. TXT x88006
f. TXT x88007
f. TXT x88008
f. TXT x88009
f. TXT x88010
f. TXT x88011
f. TXT x88012
f. TXT x88013
f. TXT x88014
f. TXT x88015
f. TXT x88016
f. TXT x88017
f. TXT x88018
f. TXT x88019
f. TXT x88020
f. TXT x88021
f. TXT x88022
f. TXT x88023
f. TXT x88024
f. TXT x88025
f. TXT x88026
f. TXT x88027
f. TXT x88028
f. TXT x88029
f. TXT x88030
f. TXT x88031
f. TXT x88032
f. TXT x88033
f. TXT x88034
f. TXT x88035
f. TXT x88036
f. TXT x88037
f. TXT x88038
f. TXT x88039
f. TXT x88040
f. TXT x88041
f. TXT x88042
f. TXT x88043
f. TXT x88044
f. TXT x88045
f. TXT x88046
f. TXT x88047
f. TXT x88048
f. TXT x88049
f. TXT x88050
f. TXT x88051
f. TXT x88052
f. TXT x88053
f. TXT x88054
f. TXT x88055
f. TXT x88056
f. TXT x88057
f. TXT x88058
f. TXT x88059
f. TXT x88060
f. TXT x88061
f. TXT x88062
f. TXT x88063
; a
f. TXT x88065
f. TXT x88066
f. TXT x88067
f. TXT x88068
f. TXT x88069
f. TXT x88070
f. TXT x88071
f. TXT x88072
f. TXT x88073
f. TXT x88074
f. TXT x88075
f. TXT x88076
f. TXT x88077
f. TXT x88078
f. TXT x88079
f. TXT x88080
f. TXT x88081
f. TXT x88082
f. TXT x88083
f. TXT x88084
f. TXT x88085
f. TXT x88086
f. TXT x88087
f. TXT x88088
f. TXT x88089
f. TXT x88090
f. TXT x88091
f. TXT x88092
f. TXT x88093
f. TXT x88094
f. TXT x88095
f. TXT x88096
f. TXT x88097
f. TXT x88098
f. TXT x88099
f. TXT x88100
f. TXT x88101
f. TXT x88102
f. TXT x88103
f. TXT x88104
f. TXT x88105
f. TXT x88106
f. TXT x88107
f. TXT x88108
f. TXT x88109
f. TXT x88110
f. TXT x88111
f. TXT x88112
f. TXT x88113
f. TXT x88114
f. TXT x88115
f. TXT x88116
f. TXT x88117
f. TXT x88118
f. TXT x88119
f. TXT x88120
f. TXT x88121
f. TXT x88122
f. TXT x88123
f. TXT x88124
f. TXT x88125
f. TXT x88126
f. TXT x88127
$TTL 4294967295
f. TXT x88129
f. TXT x88130
f. TXT x88131
f. TXT x88132
f. TXT x88133
f. TXT x88134
f. TXT x88135
f. TXT x88136
f. TXT x88137
f. TXT x88138
f. TXT x88139
f. TXT x88140
f. TXT x88141
f. TXT x88142
f. TXT x88143
f. TXT x88144
f. TXT x88145
f. TXT x88146
f. TXT x88147
f. TXT x88148
f. TXT x88149
f. TXT x88150
f. TXT x88151
f. TXT x88152
f. TXT x88153
f. TXT x88154
f. TXT x88155
f. TXT x88156
f. TXT x88157
f. TXT x88158
f. TXT x88159
f. TXT x88160
f. TXT x88161
f. TXT x88162
f. TXT x88163
f. TXT x88164
f. TXT x88165
f. TXT x88166
f. TXT x88167
f. TXT x88168
f. TXT x88169
f. TXT x88170
f. TXT x88171
f. TXT x88172
f. TXT x88173
f. TXT x88174
f. TXT x88175
f. TXT x88176
f. TXT x88177
f. TXT x88178
f. TXT x88179
f. TXT x88180
f. TXT x88181
f. TXT x88182
f. TXT x88183
f. TXT x88184
f. TXT x88185
f. TXT x88186
f. TXT x88187
f. TXT x88188
f. TXT x88189
f. TXT x88190
f. TXT x88191
 TXT 0y a0
f. TXT x88193
f. TXT x88194
f. TXT x88195
f. TXT x88196
f. TXT x88197
f. TXT x88198
f. TXT x88199
f. TXT x88200
f. TXT x88201
f. TXT x88202
f. TXT x88203
f. TXT x88204
f. TXT x88205
f. TXT x88206
f. TXT x88207
f. TXT x88208
f. TXT x88209
f. TXT x88210
f. TXT x88211
f. TXT x88212
f. TXT x88213
f. TXT x88214
f. TXT x88215
f. TXT x88216
f. TXT x88217
f. TXT x88218
f. TXT x88219
f. TXT x88220
f. TXT x88221
f. TXT x88222
f. TXT x88223
f. TXT x88224
f. TXT x88225
f. TXT x88226
f. TXT x88227
f. TXT x88228
f. TXT x88229
f. TXT x88230
f. TXT x88231
f. TXT x88232
f. TXT x88233
f. TXT x88234
f. TXT x88235
f. TXT x88236
f. TXT x88237
f. TXT x88238
f. TXT x88239
f. TXT x88240
f. TXT x88241
f. TXT x88242
f. TXT x88243
f. TXT x88244
f. TXT x88245
f. TXT x88246
f. TXT x88247
f. TXT x88248
f. TXT x88249
f. TXT x88250
f. TXT x88251
f. TXT x88252
f. TXT x88253
f. TXT x88254
f. TXT x88255
azb TXT cc zbc
f. TXT x88257
f. TXT x88258
f. TXT x88259
f. TXT x88260
f. TXT x88261
f. TXT x88262
f. TXT x88263
f. TXT x88264
f. TXT x88265
f. TXT x88266
f. TXT x88267
f. TXT x88268
f. TXT x88269
f. TXT x88270
f. TXT x88271
f. TXT x88272
f. TXT x88273
f. TXT x88274
f. TXT x88275
f. TXT x88276
f. TXT x88277
f. TXT x88278
f. TXT x88279
f. TXT x88280
f. TXT x88281
f. TXT x88282
f. TXT x88283
f. TXT x88284
f. TXT x88285
f. TXT x88286
f. TXT x88287
f. TXT x88288
f. TXT x88289
f. TXT x88290
f. TXT x88291
f. TXT x88292
f. TXT x88293
f. TXT x88294
f. TXT x88295
f. TXT x88296
f. TXT x88297
f. TXT x88298
f. TXT x88299
f. TXT x88300
f. TXT x88301
f. TXT x88302
f. TXT x88303
f. TXT x88304
f. TXT x88305
f. TXT x88306
f. TXT x88307
f. TXT x88308
f. TXT x88309
f. TXT x88310
f. TXT x88311
f. TXT x88312
f. TXT x88313
f. TXT x88314
f. TXT x88315
f. TXT x88316
f. TXT x88317
f. TXT x88318
f. TXT x88319
; z0x
f. TXT x88321
f. TXT x88322
f. TXT x88323
f. TXT x88324
f. TXT x88325
f. TXT x88326
f. TXT x88327
f. TXT x88328
f. TXT x88329
f. TXT x88330
f. TXT x88331
f. TXT x88332
f. TXT x88333
f. TXT x88334
f. TXT x88335
f. TXT x88336
f. TXT x88337
f. TXT x88338
f. TXT x88339
f. TXT x88340
f. TXT x88341
f. TXT x88342
f. TXT x88343
f. TXT x88344
f. TXT x88345
f. TXT x88346
f. TXT x88347
f. TXT x88348
f. TXT x88349
f. TXT x88350
f. TXT x88351
f. TXT x88352
f. TXT x88353
f. TXT x88354
f. TXT x88355
f. TXT x88356
f. TXT x88357
f. TXT x88358
f. TXT x88359
f. TXT x88360
f. TXT x88361
f. TXT x88362
f. TXT x88363
f. TXT x88364
f. TXT x88365
f. TXT x88366
f. TXT x88367
f. TXT x88368
f. TXT x88369
f. TXT x88370
f. TXT x88371
f. TXT x88372
f. TXT x88373
f. TXT x88374
f. TXT x88375
f. TXT x88376
f. TXT x88377
f. TXT x88378
f. TXT x88379
f. TXT x88380
f. TXT x88381
f. TXT x88382
f. TXT x88383
@ TXT b0*
f. TXT x88385
f. TXT x88386
f. TXT x88387
f. TXT x88388
f. TXT x88389
f. TXT x88390
f. TXT x88391
f. TXT x88392
f. TXT x88393
f. TXT x88394
f. TXT x88395
f. TXT x88396
f. TXT x88397
f. TXT x88398
f. TXT x88399
f. TXT x88400
f. TXT x88401
f. TXT x88402
f. TXT x88403
f. TXT x88404
f. TXT x88405
f. TXT x88406
f. TXT x88407
f. TXT x88408
f. TXT x88409
f. TXT x88410
f. TXT x88411
f. TXT x88412
f. TXT x88413
f. TXT x88414
f. TXT x88415
f. TXT x88416
f. TXT x88417
f. TXT x88418
f. TXT x88419
f. TXT x88420
f. TXT x88421
f. TXT x88422
f. TXT x88423
f. TXT x88424
f. TXT x88425
f. TXT x88426
f. TXT x88427
f. TXT x88428
f. TXT x88429
f. TXT x88430
f. TXT x88431
f. TXT x88432
f. TXT x88433
f. TXT x88434
f. TXT x88435
f. TXT x88436
f. TXT x88437
f. TXT x88438
f. TXT x88439
f. TXT x88440
f. TXT x88441
f. TXT x88442
f. TXT x88443
f. TXT x88444
f. TXT x88445
f. TXT x88446
f. TXT x88447
 TXT bz 0
f. TXT x88449
f. TXT x88450
f. TXT x88451
f. TXT x88452
f. TXT x88453
f. TXT x88454
f. TXT x88455
f. TXT x88456
f. TXT x88457
f. TXT x88458
f. TXT x88459
f. TXT x88460
f. TXT x88461
f. TXT x88462
f. TXT x88463
f. TXT x88464
f. TXT x88465
f. TXT x88466
f. TXT x88467
f. TXT x88468
f. TXT x88469
f. TXT x88470
f. TXT x88471
f. TXT x88472
f. TXT x88473
f. TXT x88474
f. TXT x88475
f. TXT x88476
f. TXT x88477
f. TXT x88478
f. TXT x88479
f. TXT x88480
f. TXT x88481
f. TXT x88482
f. TXT x88483
f. TXT x88484
f. TXT x88485
f. TXT x88486
f. TXT x88487
f. TXT x88488
f. TXT x88489
f. TXT x88490
f. TXT x88491
f. TXT x88492
f. TXT x88493
f. TXT x88494
f. TXT x88495
f. TXT x88496
f. TXT x88497
f. TXT x88498
f. TXT x88499
f. TXT x88500
f. TXT x88501
f. TXT x88502
f. TXT x88503
f. TXT x88504
f. TXT x88505
f. TXT x88506
f. TXT x88507
f. TXT x88508
f. TXT x88509
f. TXT x88510
f. TXT x88511
 A bb aa
f. TXT x88513
f. TXT x88514
f. TXT x88515
f. TXT x88516
f. TXT x88517
f. TXT x88518
f. TXT x88519
f. TXT x88520
f. TXT x88521
f. TXT x88522
f. TXT x88523
f. TXT x88524
f. TXT x88525
f. TXT x88526
f. TXT x88527
f. TXT x88528
f. TXT x88529
f. TXT x88530
f. TXT x88531
f. TXT x88532
f. TXT x88533
f. TXT x88534
f. TXT x88535
f. TXT x88536
f. TXT x88537
f. TXT x88538
f. TXT x88539
f. TXT x88540
f. TXT x88541
f. TXT x88542
f. TXT x88543
f. TXT x88544
f. TXT x88545
f. TXT x88546
f. TXT x88547
f. TXT x88548
f. TXT x88549
f. TXT x88550
f. TXT x88551
f. TXT x88552
f. TXT x88553
f. TXT x88554
f. TXT x88555
f. TXT x88556
f. TXT x88557
f. TXT x88558
f. TXT x88559
f. TXT x88560
f. TXT x88561
f. TXT x88562
f. TXT x88563
f. TXT x88564
f. TXT x88565
f. TXT x88566
f. TXT x88567
f. TXT x88568
f. TXT x88569
f. TXT x88570
f. TXT x88571
f. TXT x88572
f. TXT x88573
f. TXT x88574
f. TXT x88575
b0 NS by
f. TXT x88577
f. TXT x88578
f. TXT x88579
f. TXT x88580
f. TXT x88581
f. TXT x88582
f. TXT x88583
f. TXT x88584
f. TXT x88585
f. TXT x88586
f. TXT x88587
f. TXT x88588
f. TXT x88589
f. TXT x88590
f. TXT x88591
f. TXT x88592
f. TXT x88593
f. TXT x88594
f. TXT x88595
f. TXT x88596
f. TXT x88597
f. TXT x88598
f. TXT x88599
f. TXT x88600
f. TXT x88601
f. TXT x88602
f. TXT x88603
f. TXT x88604
f. TXT x88605
f. TXT x88606
f. TXT x88607
f. TXT x88608
f. TXT x88609
f. TXT x88610
f. TXT x88611
f. TXT x88612
f. TXT x88613
f. TXT x88614
f. TXT x88615
f. TXT x88616
f. TXT x88617
f. TXT x88618
f. TXT x88619
f. TXT x88620
f. TXT x88621
f. TXT x88622
f. TXT x88623
f. TXT x88624
f. TXT x88625
f. TXT x88626
f. TXT x88627
f. TXT x88628
f. TXT x88629
f. TXT x88630
f. TXT x88631
f. TXT x88632
f. TXT x88633
f. TXT x88634
f. TXT x88635
f. TXT x88636
f. TXT x88637
f. TXT x88638
f. TXT x88639
@ TXT a -ac* aa
f. TXT x88641
f. TXT x88642
f. TXT x88643
f. TXT x88644
f. TXT x88645
f. TXT x88646
f. TXT x88647
f. TXT x88648
f. TXT x88649
f. TXT x88650
f. TXT x88651
f. TXT x88652
f. TXT x88653
f. TXT x88654
f. TXT x88655
f. TXT x88656
f. TXT x88657
f. TXT x88658
f. TXT x88659
f. TXT x88660
f. TXT x88661
f. TXT x88662
f. TXT x88663
f. TXT x88664
f. TXT x88665
f. TXT x88666
f. TXT x88667
f. TXT x88668
f. TXT x88669
f. TXT x88670
f. TXT x88671
f. TXT x88672
f. TXT x88673
f. TXT x88674
f. TXT x88675
f. TXT x88676
f. TXT x88677
f. TXT x88678
f. TXT x88679
f. TXT x88680
f. TXT x88681
f. TXT x88682
f. TXT x88683
f. TXT x88684
f. TXT x88685
f. TXT x88686
f. TXT x88687
f. TXT x88688
f. TXT x88689
f. TXT x88690
f. TXT x88691
f. TXT x88692
f. TXT x88693
f. TXT x88694
f. TXT x88695
f. TXT x88696
f. TXT x88697
f. TXT x88698
f. TXT x88699
f. TXT x88700
f. TXT x88701
f. TXT x88702
f. TXT x88703
 TXT ab -
f. TXT x88705
f. TXT x88706
f. TXT x88707
f. TXT x88708
f. TXT x88709
f. TXT x88710
f. TXT x88711
f. TXT x88712
f. TXT x88713
f. TXT x88714
f. TXT x88715
f. TXT x88716
f. TXT x88717
f. TXT x88718
f. TXT x88719
f. TXT x88720
f. TXT x88721
f. TXT x88722
f. TXT x88723
f. TXT x88724
f. TXT x88725
f. TXT x88726
f. TXT x88727
f. TXT x88728
f. TXT x88729
f. TXT x88730
f. TXT x88731
f. TXT x88732
f. TXT x88733
f. TXT x88734
f. TXT x88735
f. TXT x88736
f. TXT x88737
f. TXT x88738
f. TXT x88739
f. TXT x88740
f. TXT x88741
f. TXT x88742
f. TXT x88743
f. TXT x88744
f. TXT x88745
f. TXT x88746
f. TXT x88747
f. TXT x88748
f. TXT x88749
f. TXT x88750
f. TXT x88751
f. TXT x88752
f. TXT x88753
f. TXT x88754
f. TXT x88755
f. TXT x88756
f. TXT x88757
f. TXT x88758
f. TXT x88759
f. TXT x88760
f. TXT x88761
f. TXT x88762
f. TXT x88763
f. TXT x88764
f. TXT x88765
f. TXT x88766
f. TXT x88767
xx* NS zb-x - caxy
f. TXT x88769
f. TXT x88770
f. TXT x88771
f. TXT x88772
f. TXT x88773
f. TXT x88774
f. TXT x88775
f. TXT x88776
f. TXT x88777
f. TXT x88778
f. TXT x88779
f. TXT x88780
f. TXT x88781
f. TXT x88782
f. TXT x88783
f. TXT x88784
f. TXT x88785
f. TXT x88786
f. TXT x88787
f. TXT x88788
f. TXT x88789
f. TXT x88790
f. TXT x88791
f. TXT x88792
f. TXT x88793
f. TXT x88794
f. TXT x88795
f. TXT x88796
f. TXT x88797
f. TXT x88798
f. TXT x88799
f. TXT x88800
f. TXT x88801
f. TXT x88802
f. TXT x88803
f. TXT x88804
f. TXT x88805
f. TXT x88806
f. TXT x88807
f. TXT x88808
f. TXT x88809
f. TXT x88810
f. TXT x88811
f. TXT x88812
f. TXT x88813
f. TXT x88814
f. TXT x88815
f. TXT x88816
f. TXT x88817
f. TXT x88818
f. TXT x88819
f. TXT x88820
f. TXT x88821
f. TXT x88822
f. TXT x88823
f. TXT x88824
f. TXT x88825
f. TXT x88826
f. TXT x88827
f. TXT x88828
f. TXT x88829
f. TXT x88830
f. TXT x88831
$TTL 4294967295
f. TXT x88833
f. TXT x88834
f. TXT x88835
f. TXT x88836
f. TXT x88837
f. TXT x88838
f. TXT x88839
f. TXT x88840
f. TXT x88841
f. TXT x88842
f. TXT x88843
f. TXT x88844
f. TXT x88845
f. TXT x88846
f. TXT x88847
f. TXT x88848
f. TXT x88849
f. TXT x88850
f. TXT x88851
f. TXT x88852
f. TXT x88853
f. TXT x88854
f. TXT x88855
f. TXT x88856
f. TXT x88857
f. TXT x88858
f. TXT x88859
f. TXT x88860
f. TXT x88861
f. TXT x88862
f. TXT x88863
f. TXT x88864
f. TXT x88865
f. TXT x88866
f. TXT x88867
f. TXT x88868
f. TXT x88869
f. TXT x88870
f. TXT x88871
f. TXT x88872
f. TXT x88873
f. TXT x88874
f. TXT x88875
f. TXT x88876
f. TXT x88877
f. TXT x88878
f. TXT x88879
f. TXT x88880
f. TXT x88881
f. TXT x88882
f. TXT x88883
f. TXT x88884
f. TXT x88885
f. TXT x88886
f. TXT x88887
f. TXT x88888
f. TXT x88889
f. TXT x88890
f. TXT x88891
f. TXT x88892
f. TXT x88893
f. TXT x88894
f. TXT x88895
 TXT 0za- caa
f. TXT x88897
f. TXT x88898
f. TXT x88899
f. TXT x88900
f. TXT x88901
f. TXT x88902
f. TXT x88903
f. TXT x88904
f. TXT x88905
f. TXT x88906
f. TXT x88907
f. TXT x88908
f. TXT x88909
f. TXT x88910
f. TXT x88911
f. TXT x88912
f. TXT x88913
f. TXT x88914
f. TXT x88915
f. TXT x88916
f. TXT x88917
f. TXT x88918
f. TXT x88919
f. TXT x88920
f. TXT x88921
f. TXT x88922
f. TXT x88923
f. TXT x88924
f. TXT x88925
f. TXT x88926
f. TXT x88927
f. TXT x88928
f. TXT x88929
f. TXT x88930
f. TXT x88931
f. TXT x88932
f. TXT x88933
f. TXT x88934
f. TXT x88935
f. TXT x88936
f. TXT x88937
f. TXT x88938
f. TXT x88939
f. TXT x88940
f. TXT x88941
f. TXT x88942
f. TXT x88943
f. TXT x88944
f. TXT x88945
f. TXT x88946
f. TXT x88947
f. TXT x88948
f. TXT x88949
f. TXT x88950
f. TXT x88951
f. TXT x88952
f. TXT x88953
f. TXT x88954
f. TXT x88955
f. TXT x88956
f. TXT x88957
f. TXT x88958
f. TXT x88959
xy00 NS za0a *b
f. TXT x88961
f. TXT x88962
f. TXT x88963
f. TXT x88964
f. TXT x88965
f. TXT x88966
f. TXT x88967
f. TXT x88968
f. TXT x88969
f. TXT x88970
f. TXT x88971
f. TXT x88972
f. TXT x88973
f. TXT x88974
f. TXT x88975
f. TXT x88976
f. TXT x88977
f. TXT x88978
f. TXT x88979
f. TXT x88980
f. TXT x88981
f. TXT x88982
f. TXT x88983
f. TXT x88984
f. TXT x88985
f. TXT x88986
f. TXT x88987
f. TXT x88988
f. TXT x88989
f. TXT x88990
f. TXT x88991
f. TXT x88992
f. TXT x88993
f. TXT x88994
f. TXT x88995
f. TXT x88996
f. TXT x88997
f. TXT x88998
f. TXT x88999
f. TXT x89000
f. TXT x89001
f. TXT x89002
f. TXT x89003
f. TXT x89004
f. TXT x89005
f. TXT x89006
f. TXT x89007
f. TXT x89008
f. TXT x89009
f. TXT x89010
f. TXT x89011
f. TXT x89012
f. TXT x89013
f. TXT x89014
f. TXT x89015
f. TXT x89016
f. TXT x89017
f. TXT x89018
f. TXT x89019
f. TXT x89020
f. TXT x89021
f. TXT x89022
f. TXT x89023
xzz- NS c0ca yc-
f. TXT x89025
f. TXT x89026
f. TXT x89027
f. TXT x89028
f. TXT x89029
f. TXT x89030
f. TXT x89031
f. TXT x89032
f. TXT x89033
f. TXT x89034
f. TXT x89035
f. TXT x89036
f. TXT x89037
f. TXT x89038
f. TXT x89039
f. TXT x89040
f. TXT x89041
f. TXT x89042
f. TXT x89043
f. TXT x89044
f. TXT x89045
f. TXT x89046
f. TXT x89047
f. TXT x89048
f. TXT x89049
f. TXT x89050
f. TXT x89051
f. TXT x89052
f. TXT x89053
f. TXT x89054
f. TXT x89055
f. TXT x89056
f. TXT x89057
f. TXT x89058
f. TXT x89059
f. TXT x89060
f. TXT x89061
f. TXT x89062
f. TXT x89063
f. TXT x89064
f. TXT x89065
f. TXT x89066
f. TXT x89067
f. TXT x89068
f. TXT x89069
f. TXT x89070
f. TXT x89071
f. TXT x89072
f. TXT x89073
f. TXT x89074
f. TXT x89075
f. TXT x89076
f. TXT x89077
f. TXT x89078
f. TXT x89079
f. TXT x89080
f. TXT x89081
f. TXT x89082
f. TXT x89083
f. TXT x89084
f. TXT x89085
f. TXT x89086
f. TXT x89087
@ A -y a
f. TXT x89089
f. TXT x89090
f. TXT x89091
f. TXT x89092
f. TXT x89093
f. TXT x89094
f. TXT x89095
f. TXT x89096
f. TXT x89097
f. TXT x89098
f. TXT x89099
f. TXT x89100
f. TXT x89101
f. TXT x89102
f. TXT x89103
f. TXT x89104
f. TXT x89105
f. TXT x89106
f. TXT x89107
f. TXT x89108
f. TXT x89109
f. TXT x89110
f. TXT x89111
f. TXT x89112
f. TXT x89113
f. TXT x89114
f. TXT x89115
f. TXT x89116
f. TXT x89117
f. TXT x89118
f. TXT x89119
f. TXT x89120
f. TXT x89121
f. TXT x89122
f. TXT x89123
f. TXT x89124
f. TXT x89125
f. TXT x89126
f. TXT x89127
f. TXT x89128
f. TXT x89129
f. TXT x89130
f. TXT x89131
f. TXT x89132
f. TXT x89133
f. TXT x89134
f. TXT x89135
f. TXT x89136
f. TXT x89137
f. TXT x89138
f. TXT x89139
f. TXT x89140
f. TXT x89141
f. TXT x89142
f. TXT x89143
f. TXT x89144
f. TXT x89145
f. TXT x89146
f. TXT x89147
f. TXT x89148
f. TXT x89149
f. TXT x89150
f. TXT x89151
@ NS zac -a 0y0*
f. TXT x89153
f. TXT x89154
f. TXT x89155
f. TXT x89156
f. TXT x89157
f. TXT x89158
f. TXT x89159
f. TXT x89160
f. TXT x89161
f. TXT x89162
f. TXT x89163
f. TXT x89164
f. TXT x89165
f. TXT x89166
f. TXT x89167
f. TXT x89168
f. TXT x89169
f. TXT x89170
f. TXT x89171
f. TXT x89172
f. TXT x89173
f. TXT x89174
f. TXT x89175
f. TXT x89176
f. TXT x89177
f. TXT x89178
f. TXT x89179
f. TXT x89180
f. TXT x89181
f. TXT x89182
f. TXT x89183
f. TXT x89184
f. TXT x89185
f. TXT x89186
f. TXT x89187
f. TXT x89188
f. TXT x89189
f. TXT x89190
f. TXT x89191
f. TXT x89192
f. TXT x89193
f. TXT x89194
f. TXT x89195
f. TXT x89196
f. TXT x89197
f. TXT x89198
f. TXT x89199
f. TXT x89200
f. TXT x89201
f. TXT x89202
f. TXT x89203
f. TXT x89204
f. TXT x89205
f. TXT x89206
f. TXT x89207
f. TXT x89208
f. TXT x89209
f. TXT x89210
f. TXT x89211
f. TXT x89212
f. TXT x89213
f. TXT x89214
f. TXT x89215
0a TXT x ab- -c
f. TXT x89217
f. TXT x89218
f. TXT x89219
f. TXT x89220
f. TXT x89221
f. TXT x89222
f. TXT x89223
f. TXT x89224
f. TXT x89225
f. TXT x89226
f. TXT x89227
f. TXT x89228
f. TXT x89229
f. TXT x89230
f. TXT x89231
f. TXT x89232
f. TXT x89233
f. TXT x89234
f. TXT x89235
f. TXT x89236
f. TXT x89237
f. TXT x89238
f. TXT x89239
f. TXT x89240
f. TXT x89241
f. TXT x89242
f. TXT x89243
f. TXT x89244
f. TXT x89245
f. TXT x89246
f. TXT x89247
f. TXT x89248
f. TXT x89249
f. TXT x89250
f. TXT x89251
f. TXT x89252
f. TXT x89253
f. TXT x89254
f. TXT x89255
f. TXT x89256
f. TXT x89257
f. TXT x89258
f. TXT x89259
f. TXT x89260
f. TXT x89261
f. TXT x89262
f. TXT x89263
f. TXT x89264
f. TXT x89265
f. TXT x89266
f. TXT x89267
f. TXT x89268
f. TXT x89269
f. TXT x89270
f. TXT x89271
f. TXT x89272
f. TXT x89273
f. TXT x89274
f. TXT x89275
f. TXT x89276
f. TXT x89277
f. TXT x89278
f. TXT x89279
xzz. A c*
f. TXT x89281
f. TXT x89282
f. TXT x89283
f. TXT x89284
f. TXT x89285
f. TXT x89286
f. TXT x89287
f. TXT x89288
f. TXT x89289
f. TXT x89290
f. TXT x89291
f. TXT x89292
f. TXT x89293
f. TXT x89294
f. TXT x89295
f. TXT x89296
f. TXT x89297
f. TXT x89298
f. TXT x89299
f. TXT x89300
f. TXT x89301
f. TXT x89302
f. TXT x89303
f. TXT x89304
f. TXT x89305
f. TXT x89306
f. TXT x89307
f. TXT x89308
f. TXT x89309
f. TXT x89310
f. TXT x89311
f. TXT x89312
f. TXT x89313
f. TXT x89314
f. TXT x89315
f. TXT x89316
f. TXT x89317
f. TXT x89318
f. TXT x89319
f. TXT x89320
f. TXT x89321
f. TXT x89322
f. TXT x89323
f. TXT x89324
f. TXT x89325
f. TXT x89326
f. TXT x89327
f. TXT x89328
f. TXT x89329
f. TXT x89330
f. TXT x89331
f. TXT x89332
f. TXT x89333
f. TXT x89334
f. TXT x89335
f. TXT x89336
f. TXT x89337
f. TXT x89338
f. TXT x89339
f. TXT x89340
f. TXT x89341
f. TXT x89342
f. TXT x89343
@ NS *x bb*z
f. TXT x89345
f. TXT x89346
f. TXT x89347
f. TXT x89348
f. TXT x89349
f. TXT x89350
f. TXT x89351
f. TXT x89352
f. TXT x89353
f. TXT x89354
f. TXT x89355
f. TXT x89356
f. TXT x89357
f. TXT x89358
f. TXT x89359
f. TXT x89360
f. TXT x89361
f. TXT x89362
f. TXT x89363
f. TXT x89364
f. TXT x89365
f. TXT x89366
f. TXT x89367
f. TXT x89368
f. TXT x89369
f. TXT x89370
f. TXT x89371
f. TXT x89372
f. TXT x89373
f. TXT x89374
f. TXT x89375
f. TXT x89376
f. TXT x89377
f. TXT x89378
f. TXT x89379
f. TXT x89380
f. TXT x89381
f. TXT x89382
f. TXT x89383
f. TXT x89384
f. TXT x89385
f. TXT x89386
f. TXT x89387
f. TXT x89388
f. TXT x89389
f. TXT x89390
f. TXT x89391
f. TXT x89392
f. TXT x89393
f. TXT x89394
f. TXT x89395
f. TXT x89396
f. TXT x89397
f. TXT x89398
f. TXT x89399
f. TXT x89400
f. TXT x89401
f. TXT x89402
f. TXT x89403
f. TXT x89404
f. TXT x89405
f. TXT x89406
f. TXT x89407
$TTL 1569947015
f. TXT x89409
f. TXT x89410
f. TXT x89411
f. TXT x89412
f. TXT x89413
f. TXT x89414
f. TXT x89415
f. TXT x89416
f. TXT x89417
f. TXT x89418
f. TXT x89419
f. TXT x89420
f. TXT x89421
f. TXT x89422
f. TXT x89423
f. TXT x89424
f. TXT x89425
f. TXT x89426
f. TXT x89427
f. TXT x89428
f. TXT x89429
f. TXT x89430
f. TXT x89431
f. TXT x89432
f. TXT x89433
f. TXT x89434
f. TXT x89435
f. TXT x89436
f. TXT x89437
f. TXT x89438
f. TXT x89439
f. TXT x89440
f. TXT x89441
f. TXT x89442
f. TXT x89443
f. TXT x89444
f. TXT x89445
f. TXT x89446
f. TXT x89447
f. TXT x89448
f. TXT x89449
f. TXT x89450
f. TXT x89451
f. TXT x89452
f. TXT x89453
f. TXT x89454
f. TXT x89455
f. TXT x89456
f. TXT x89457
f. TXT x89458
f. TXT x89459
f. TXT x89460
f. TXT x89461
f. TXT x89462
f. TXT x89463
f. TXT x89464
f. TXT x89465
f. TXT x89466
f. TXT x89467
f. TXT x89468
f. TXT x89469
f. TXT x89470
f. TXT x89471
$ORIGIN y-.
f. TXT x89473
f. TXT x89474
f. TXT x89475
f. TXT x89476
f. TXT x89477
f. TXT x89478
f. TXT x89479
f. TXT x89480
f. TXT x89481
f. TXT x89482
f. TXT x89483
f. TXT x89484
f. TXT x89485
f. TXT x89486
f. TXT x89487
f. TXT x89488
f. TXT x89489
f. TXT x89490
f. TXT x89491
f. TXT x89492
f. TXT x89493
f. TXT x89494
f. TXT x89495
f. TXT x89496
f. TXT x89497
f. TXT x89498
f. TXT x89499
f. TXT x89500
f. TXT x89501
f. TXT x89502
f. TXT x89503
f. TXT x89504
f. TXT x89505
f. TXT x89506
f. TXT x89507
f. TXT x89508
f. TXT x89509
f. TXT x89510
f. TXT x89511
f. TXT x89512
f. TXT x89513
f. TXT x89514
f. TXT x89515
f. TXT x89516
f. TXT x89517
f. TXT x89518
f. TXT x89519
f. TXT x89520
f. TXT x89521
f. TXT x89522
f. TXT x89523
f. TXT x89524
f. TXT x89525
f. TXT x89526
f. TXT x89527
f. TXT x89528
f. TXT x89529
f. TXT x89530
f. TXT x89531
f. TXT x89532
f. TXT x89533
f. TXT x89534
f. TXT x89535
; b-c
f. TXT x89537
f. TXT x89538
f. TXT x89539
f. TXT x89540
f. TXT x89541
f. TXT x89542
f. TXT x89543
f. TXT x89544
f. TXT x89545
f. TXT x89546
f. TXT x89547
f. TXT x89548
f. TXT x89549
f. TXT x89550
f. TXT x89551
f. TXT x89552
f. TXT x89553
f. TXT x89554
f. TXT x89555
f. TXT x89556
f. TXT x89557
f. TXT x89558
f. TXT x89559
f. TXT x89560
f. TXT x89561
f. TXT x89562
f. TXT x89563
f. TXT x89564
f. TXT x89565
f. TXT x89566
f. TXT x89567
f. TXT x89568
f. TXT x89569
f. TXT x89570
f. TXT x89571
f. TXT x89572
f. TXT x89573
f. TXT x89574
f. TXT x89575
f. TXT x89576
f. TXT x89577
f. TXT x89578
f. TXT x89579
f. TXT x89580
f. TXT x89581
f. TXT x89582
f. TXT x89583
f. TXT x89584
f. TXT x89585
f. TXT x89586
f. TXT x89587
f. TXT x89588
f. TXT x89589
f. TXT x89590
f. TXT x89591
f. TXT x89592
f. TXT x89593
f. TXT x89594
f. TXT x89595
f. TXT x89596
f. TXT x89597
f. TXT x89598
f. TXT x89599
@ TXT zacz
f. TXT x89601
f. TXT x89602
f. TXT x89603
f. TXT x89604
f. TXT x89605
f. TXT x89606
f. TXT x89607
f. TXT x89608
f. TXT x89609
f. TXT x89610
f. TXT x89611
f. TXT x89612
f. TXT x89613
f. TXT x89614
f. TXT x89615
f. TXT x89616
f. TXT x89617
f. TXT x89618
f. TXT x89619
f. TXT x89620
f. TXT x89621
f. TXT x89622
f. TXT x89623
f. TXT x89624
f. TXT x89625
f. TXT x89626
f. TXT x89627
f. TXT x89628
f. TXT x89629
f. TXT x89630
f. TXT x89631
f. TXT x89632
f. TXT x89633
f. TXT x89634
f. TXT x89635
f. TXT x89636
f. TXT x89637
f. TXT x89638
f. TXT x89639
f. TXT x89640
f. TXT x89641
f. TXT x89642
f. TXT x89643
f. TXT x89644
f. TXT x89645
f. TXT x89646
f. TXT x89647
f. TXT x89648
f. TXT x89649
f. TXT x89650
f. TXT x89651
f. TXT x89652
f. TXT x89653
f. TXT x89654
f. TXT x89655
f. TXT x89656
f. TXT x89657
f. TXT x89658
f. TXT x89659
f. TXT x89660
f. TXT x89661
f. TXT x89662
f. TXT x89663
y. NS - zxay
f. TXT x89665
f. TXT x89666
f. TXT x89667
f. TXT x89668
f. TXT x89669
f. TXT x89670
f. TXT x89671
f. TXT x89672
f. TXT x89673
f. TXT x89674
f. TXT x89675
f. TXT x89676
f. TXT x89677
f. TXT x89678
f. TXT x89679
f. TXT x89680
f. TXT x89681
f. TXT x89682
f. TXT x89683
f. TXT x89684
f. TXT x89685
f. TXT x89686
f. TXT x89687
f. TXT x89688
f. TXT x89689
f. TXT x89690
f. TXT x89691
f. TXT x89692
f. TXT x89693
f. TXT x89694
f. TXT x89695
f. TXT x89696
f. TXT x89697
f. TXT x89698
f. TXT x89699
f. TXT x89700
f. TXT x89701
f. TXT x89702
f. TXT x89703
f. TXT x89704
f. TXT x89705
f. TXT x89706
f. TXT x89707
f. TXT x89708
f. TXT x89709
f. TXT x89710
f. TXT x89711
f. TXT x89712
f. TXT x89713
f. TXT x89714
f. TXT x89715
f. TXT x89716
f. TXT x89717
f. TXT x89718
f. TXT x89719
f. TXT x89720
f. TXT x89721
f. TXT x89722
f. TXT x89723
f. TXT x89724
f. TXT x89725
f. TXT x89726
f. TXT x89727
0zc. TXT 0 zaxb
f. TXT x89729
f. TXT x89730
f. TXT x89731
f. TXT x89732
f. TXT x89733
f. TXT x89734
f. TXT x89735
f. TXT x89736
f. TXT x89737
f. TXT x89738
f. TXT x89739
f. TXT x89740
f. TXT x89741
f. TXT x89742
f. TXT x89743
f. TXT x89744
f. TXT x89745
f. TXT x89746
f. TXT x89747
f. TXT x89748
f. TXT x89749
f. TXT x89750
f. TXT x89751
f. TXT x89752
f. TXT x89753
f. TXT x89754
f. TXT x89755
f. TXT x89756
f. TXT x89757
f. TXT x89758
f. TXT x89759
f. TXT x89760
f. TXT x89761
f. TXT x89762
f. TXT x89763
f. TXT x89764
f. TXT x89765
f. TXT x89766
f. TXT x89767
f. TXT x89768
f. TXT x89769
f. TXT x89770
f. TXT x89771
f. TXT x89772
f. TXT x89773
f. TXT x89774
f. TXT x89775
f. TXT x89776
f. TXT x89777
f. TXT x89778
f. TXT x89779
f. TXT x89780
f. TXT x89781
f. TXT x89782
f. TXT x89783
f. TXT x89784
f. TXT x89785
f. TXT x89786
f. TXT x89787
f. TXT x89788
f. TXT x89789
f. TXT x89790
f. TXT x89791
$ORIGIN x*.*.
f. TXT x89793
f. TXT x89794
f. TXT x89795
f. TXT x89796
f. TXT x89797
f. TXT x89798
f. TXT x89799
f. TXT x89800
f. TXT x89801
f. TXT x89802
f. TXT x89803
f. TXT x89804
f. TXT x89805
f. TXT x89806
f. TXT x89807
f. TXT x89808
f. TXT x89809
f. TXT x89810
f. TXT x89811
f. TXT x89812
f. TXT x89813
f. TXT x89814
f. TXT x89815
f. TXT x89816
f. TXT x89817
f. TXT x89818
f. TXT x89819
f. TXT x89820
f. TXT x89821
f. TXT x89822
f. TXT x89823
f. TXT x89824
f. TXT x89825
f. TXT x89826
f. TXT x89827
f. TXT x89828
f. TXT x89829
f. TXT x89830
f. TXT x89831
f. TXT x89832
f. TXT x89833
f. TXT x89834
f. TXT x89835
f. TXT x89836
f. TXT x89837
f. TXT x89838
f. TXT x89839
f. TXT x89840
f. TXT x89841
f. TXT x89842
f. TXT x89843
f. TXT x89844
f. TXT x89845
f. TXT x89846
f. TXT x89847
f. TXT x89848
f. TXT x89849
f. TXT x89850
f. TXT x89851
f. TXT x89852
f. TXT x89853
f. TXT x89854
f. TXT x89855
 NS -yzc *by
f. TXT x89857
f. TXT x89858
f. TXT x89859
f. TXT x89860
f. TXT x89861
f. TXT x89862
f. TXT x89863
f. TXT x89864
f. TXT x89865
f. TXT x89866
f. TXT x89867
f. TXT x89868
f. TXT x89869
f. TXT x89870
f. TXT x89871
f. TXT x89872
f. TXT x89873
f. TXT x89874
f. TXT x89875
f. TXT x89876
f. TXT x89877
f. TXT x89878
f. TXT x89879
f. TXT x89880
f. TXT x89881
f. TXT x89882
f. TXT x89883
f. TXT x89884
f. TXT x89885
f. TXT x89886
f. TXT x89887
f. TXT x89888
f. TXT x89889
f. TXT x89890
f. TXT x89891
f. TXT x89892
f. TXT x89893
f. TXT x89894
f. TXT x89895
f. TXT x89896
f. TXT x89897
f. TXT x89898
f. TXT x89899
f. TXT x89900
f. TXT x89901
f. TXT x89902
f. TXT x89903
f. TXT x89904
f. TXT x89905
f. TXT x89906
f. TXT x89907
f. TXT x89908
f. TXT x89909
f. TXT x89910
f. TXT x89911
f. TXT x89912
f. TXT x89913
f. TXT x89914
f. TXT x89915
f. TXT x89916
f. TXT x89917
f. TXT x89918
f. TXT x89919
$TTL 628
f. TXT x89921
f. TXT x89922
f. TXT x89923
f. TXT x89924
f. TXT x89925
f. TXT x89926
f. TXT x89927
f. TXT x89928
f. TXT x89929
f. TXT x89930
f. TXT x89931
f. TXT x89932
f. TXT x89933
f. TXT x89934
f. TXT x89935
f. TXT x89936
f. TXT x89937
f. TXT x89938
f. TXT x89939
f. TXT x89940
f. TXT x89941
f. TXT x89942
f. TXT x89943
f. TXT x89944
f. TXT x89945
f. TXT x89946
f. TXT x89947
f. TXT x89948
f. TXT x89949
f. TXT x89950
f. TXT x89951
f. TXT x89952
f. TXT x89953
f. TXT x89954
f. TXT x89955
f. TXT x89956
f. TXT x89957
f. TXT x89958
f. TXT x89959
f. TXT x89960
f. TXT x89961
f. TXT x89962
f. TXT x89963
f. TXT x89964
f. TXT x89965
f. TXT x89966
f. TXT x89967
f. TXT x89968
f. TXT x89969
f. TXT x89970
f. TXT x89971
f. TXT x89972
f. TXT x89973
f. TXT x89974
f. TXT x89975
f. TXT x89976
f. TXT x89977
f. TXT x89978
f. TXT x89979
f. TXT x89980
f. TXT x89981
f. TXT x89982
f. TXT x89983

f. TXT x89985
f. TXT x89986
f. TXT x89987
f. TXT x89988
f. TXT x89989
f. TXT x89990
f. TXT x89991
f. TXT x89992
f. TXT x89993
f. TXT x89994
f. TXT x89995
f. TXT x89996
f. TXT x89997
f. TXT x89998
f. TXT x89999
f. TXT x90000
f. TXT x90001
f. TXT x90002
f. TXT x90003
f. TXT x90004
f. TXT x90005
f. TXT x90006
f. TXT x90007
f. TXT x90008
f. TXT x90009
f. TXT x90010
f. TXT x90011
f. TXT x90012
f. TXT x90013
f. TXT x90014
f. TXT x90015
f. TXT x90016
f. TXT x90017
f. TXT x90018
f. TXT x90019
f. TXT x90020
f. TXT x90021
f. TXT x90022
f. TXT x90023
f. TXT x90024
f. TXT x90025
f. TXT x90026
f. TXT x90027
f. TXT x90028
f. TXT x90029
f. TXT x90030
f. TXT x90031
f. TXT x90032
f. TXT x90033
f. TXT x90034
f. TXT x90035
f. TXT x90036
f. TXT x90037
f. TXT x90038
f. TXT x90039
f. TXT x90040
f. TXT x90041
f. TXT x90042
f. TXT x90043
f. TXT x90044
f. TXT x90045
f. TXT x90046
f. TXT x90047
a.0b. TXT bx
f. TXT x90049
f. TXT x90050
f. TXT x90051
f. TXT x90052
f. TXT x90053
f. TXT x90054
f. TXT x90055
f. TXT x90056
f. TXT x90057
f. TXT x90058
f. TXT x90059
f. TXT x90060
f. TXT x90061
f. TXT x90062
f. TXT x90063
f. TXT x90064
f. TXT x90065
f. TXT x90066
f. TXT x90067
f. TXT x90068
f. TXT x90069
f. TXT x90070
f. TXT x90071
f. TXT x90072
f. TXT x90073
f. TXT x90074
f. TXT x90075
f. TXT x90076
f. TXT x90077
f. TXT x90078
f. TXT x90079
f. TXT x90080
f. TXT x90081
f. TXT x90082
f. TXT x90083
f. TXT x90084
f. TXT x90085
f. TXT x90086
f. TXT x90087
f. TXT x90088
f. TXT x90089
f. TXT x90090
f. TXT x90091
f. TXT x90092
f. TXT x90093
f. TXT x90094
f. TXT x90095
f. TXT x90096
f. TXT x90097
f. TXT x90098
f. TXT x90099
f. TXT x90100
f. TXT x90101
f. TXT x90102
f. TXT x90103
f. TXT x90104
f. TXT x90105
f. TXT x90106
f. TXT x90107
f. TXT x90108
f. TXT x90109
f. TXT x90110
f. TXT x90111
a. TXT zb y0-
f. TXT x90113
f. TXT x90114
f. TXT x90115
f. TXT x90116
f. TXT x90117
f. TXT x90118
f. TXT x90119
f. TXT x90120
f. TXT x90121
f. TXT x90122
f. TXT x90123
f. TXT x90124
f. TXT x90125
f. TXT x90126
f. TXT x90127
f. TXT x90128
f. TXT x90129
f. TXT x90130
f. TXT x90131
f. TXT x90132
f. TXT x90133
f. TXT x90134
f. TXT x90135
f. TXT x90136
f. TXT x90137
f. TXT x90138
f. TXT x90139
f. TXT x90140
f. TXT x90141
f. TXT x90142
f. TXT x90143
f. TXT x90144
f. TXT x90145
f. TXT x90146
f. TXT x90147
f. TXT x90148
f. TXT x90149
f. TXT x90150
f. TXT x90151
f. TXT x90152
f. TXT x90153
f. TXT x90154
f. TXT x90155
f. TXT x90156
f. TXT x90157
f. TXT x90158
f. TXT x90159
f. TXT x90160
f. TXT x90161
f. TXT x90162
f. TXT x90163
f. TXT x90164
f. TXT x90165
f. TXT x90166
f. TXT x90167
f. TXT x90168
f. TXT x90169
f. TXT x90170
f. TXT x90171
f. TXT x90172
f. TXT x90173
f. TXT x90174
f. TXT x90175
0. A c b0 0bx
f. TXT x90177
f. TXT x90178
f. TXT x90179
f. TXT x90180
f. TXT x90181
f. TXT x90182
f. TXT x90183
f. TXT x90184
f. TXT x90185
f. TXT x90186
f. TXT x90187
f. TXT x90188
f. TXT x90189
f. TXT x90190
f. TXT x90191
f. TXT x90192
f. TXT x90193
f. TXT x90194
f. TXT x90195
f. TXT x90196
f. TXT x90197
f. TXT x90198
f. TXT x90199
f. TXT x90200
f. TXT x90201
f. TXT x90202
f. TXT x90203
f. TXT x90204
f. TXT x90205
f. TXT x90206
f. TXT x90207
f. TXT x90208
f. TXT x90209
f. TXT x90210
f. TXT x90211
f. TXT x90212
f. TXT x90213
f. TXT x90214
f. TXT x90215
f. TXT x90216
f. TXT x90217
f. TXT x90218
f. TXT x90219
f. TXT x90220
f. TXT x90221
f. TXT x90222
f. TXT x90223
f. TXT x90224
f. TXT x90225
f. TXT x90226
f. TXT x90227
f. TXT x90228
f. TXT x90229
f. TXT x90230
f. TXT x90231
f. TXT x90232
f. TXT x90233
f. TXT x90234
f. TXT x90235
f. TXT x90236
f. TXT x90237
f. TXT x90238
f. TXT x90239
xyx-.x-0c. A az 0*z0 y*0z
f. TXT x90241
f. TXT x90242
f. TXT x90243
f. TXT x90244
f. TXT x90245
f. TXT x90246
f. TXT x90247
f. TXT x90248
f. TXT x90249
f. TXT x90250
f. TXT x90251
f. TXT x90252
f. TXT x90253
f. TXT x90254
f. TXT x90255
f. TXT x90256
f. TXT x90257
f. TXT x90258
f. TXT x90259
f. TXT x90260
f. TXT x90261
f. TXT x90262
f. TXT x90263
f. TXT x90264
f. TXT x90265
f. TXT x90266
f. TXT x90267
f. TXT x90268
f. TXT x90269
f. TXT x90270
f. TXT x90271
f. TXT x90272
f. TXT x90273
f. TXT x90274
f. TXT x90275
f. TXT x90276
f. TXT x90277
f. TXT x90278
f. TXT x90279
f. TXT x90280
f. TXT x90281
f. TXT x90282
f. TXT x90283
f. TXT x90284
f. TXT x90285
f. TXT x90286
f. TXT x90287
f. TXT x90288
f. TXT x90289
f. TXT x90290
f. TXT x90291
f. TXT x90292
f. TXT x90293
f. TXT x90294
f. TXT x90295
f. TXT x90296
f. TXT x90297
f. TXT x90298
f. TXT x90299
f. TXT x90300
f. TXT x90301
f. TXT x90302
f. TXT x90303

f. TXT x90305
f. TXT x90306
f. TXT x90307
f. TXT x90308
f. TXT x90309
f. TXT x90310
f. TXT x90311
f. TXT x90312
f. TXT x90313
f. TXT x90314
f. TXT x90315
f. TXT x90316
f. TXT x90317
f. TXT x90318
f. TXT x90319
f. TXT x90320
f. TXT x90321
f. TXT x90322
f. TXT x90323
f. TXT x90324
f. TXT x90325
f. TXT x90326
f. TXT x90327
f. TXT x90328
f. TXT x90329
f. TXT x90330
f. TXT x90331
f. TXT x90332
f. TXT x90333
f. TXT x90334
f. TXT x90335
f. TXT x90336
f. TXT x90337
f. TXT x90338
f. TXT x90339
f. TXT x90340
f. TXT x90341
f. TXT x90342
f. TXT x90343
f. TXT x90344
f. TXT x90345
f. TXT x90346
f. TXT x90347
f. TXT x90348
f. TXT x90349
f. TXT x90350
f. TXT x90351
f. TXT x90352
f. TXT x90353
f. TXT x90354
f. TXT x90355
f. TXT x90356
f. TXT x90357
f. TXT x90358
f. TXT x90359
f. TXT x90360
f. TXT x90361
f. TXT x90362
f. TXT x90363
f. TXT x90364
f. TXT x90365
f. TXT x90366
f. TXT x90367
; xcy
f. TXT x90369
f. TXT x90370
f. TXT x90371
f. TXT x90372
f. TXT x90373
f. TXT x90374
f. TXT x90375
f. TXT x90376
f. TXT x90377
f. TXT x90378
f. TXT x90379
f. TXT x90380
f. TXT x90381
f. TXT x90382
f. TXT x90383
f. TXT x90384
f. TXT x90385
f. TXT x90386
f. TXT x90387
f. TXT x90388
f. TXT x90389
f. TXT x90390
f. TXT x90391
f. TXT x90392
f. TXT x90393
f. TXT x90394
f. TXT x90395
f. TXT x90396
f. TXT x90397
f. TXT x90398
f. TXT x90399
f. TXT x90400
f. TXT x90401
f. TXT x90402
f. TXT x90403
f. TXT x90404
f. TXT x90405
f. TXT x90406
f. TXT x90407
f. TXT x90408
f. TXT x90409
f. TXT x90410
f. TXT x90411
f. TXT x90412
f. TXT x90413
f. TXT x90414
f. TXT x90415
f. TXT x90416
f. TXT x90417
f. TXT x90418
f. TXT x90419
f. TXT x90420
f. TXT x90421
f. TXT x90422
f. TXT x90423
f. TXT x90424
f. TXT x90425
f. TXT x90426
f. TXT x90427
f. TXT x90428
f. TXT x90429
f. TXT x90430
f. TXT x90431
b--. A 0yb bc*b *0*z
f. TXT x90433
f. TXT x90434
f. TXT x90435
f. TXT x90436
f. TXT x90437
f. TXT x90438
f. TXT x90439
f. TXT x90440
f. TXT x90441
f. TXT x90442
f. TXT x90443
f. TXT x90444
f. TXT x90445
f. TXT x90446
f. TXT x90447
f. TXT x90448
f. TXT x90449
f. TXT x90450
f. TXT x90451
f. TXT x90452
f. TXT x90453
f. TXT x90454
f. TXT x90455
f. TXT x90456
f. TXT x90457
f. TXT x90458
f. TXT x90459
f. TXT x90460
f. TXT x90461
f. TXT x90462
f. TXT x90463
f. TXT x90464
f. TXT x90465
f. TXT x90466
f. TXT x90467
f. TXT x90468
f. TXT x90469
f. TXT x90470
f. TXT x90471
f. TXT x90472
f. TXT x90473
f. TXT x90474
f. TXT x90475
f. TXT x90476
f. TXT x90477
f. TXT x90478
f. TXT x90479
f. TXT x90480
f. TXT x90481
f. TXT x90482
f. TXT x90483
f. TXT x90484
f. TXT x90485
f. TXT x90486
f. TXT x90487
f. TXT x90488
f. TXT x90489
f. TXT x90490
f. TXT x90491
f. TXT x90492
f. TXT x90493
f. TXT x90494
f. TXT x90495
zxa.-za. A 0x cc
f. TXT x90497
f. TXT x90498
f. TXT x90499
f. TXT x90500
f. TXT x90501
f. TXT x90502
f. TXT x90503
f. TXT x90504
f. TXT x90505
f. TXT x90506
f. TXT x90507
f. TXT x90508
f. TXT x90509
f. TXT x90510
f. TXT x90511
f. TXT x90512
f. TXT x90513
f. TXT x90514
f. TXT x90515
f. TXT x90516
f. TXT x90517
f. TXT x90518
f. TXT x90519
f. TXT x90520
f. TXT x90521
f. TXT x90522
f. TXT x90523
f. TXT x90524
f. TXT x90525
f. TXT x90526
f. TXT x90527
f. TXT x90528
f. TXT x90529
f. TXT x90530
f. TXT x90531
f. TXT x90532
f. TXT x90533
f. TXT x90534
f. TXT x90535
f. TXT x90536
f. TXT x90537
f. TXT x90538
f. TXT x90539
f. TXT x90540
f. TXT x90541
f. TXT x90542
f. TXT x90543
f. TXT x90544
f. TXT x90545
f. TXT x90546
f. TXT x90547
f. TXT x90548
f. TXT x90549
f. TXT x90550
f. TXT x90551
f. TXT x90552
f. TXT x90553
f. TXT x90554
f. TXT x90555
f. TXT x90556
f. TXT x90557
f. TXT x90558
f. TXT x90559
aba A aa 0-xa bz
f. TXT x90561
f. TXT x90562
f. TXT x90563
f. TXT x90564
f. TXT x90565
f. TXT x90566
f. TXT x90567
f. TXT x90568
f. TXT x90569
f. TXT x90570
f. TXT x90571
f. TXT x90572
f. TXT x90573
f. TXT x90574
f. TXT x90575
f. TXT x90576
f. TXT x90577
f. TXT x90578
f. TXT x90579
f. TXT x90580
f. TXT x90581
f. TXT x90582
f. TXT x90583
f. TXT x90584
f. TXT x90585
f. TXT x90586
f. TXT x90587
f. TXT x90588
f. TXT x90589
f. TXT x90590
f. TXT x90591
f. TXT x90592
f. TXT x90593
f. TXT x90594
f. TXT x90595
f. TXT x90596
f. TXT x90597
f. TXT x90598
f. TXT x90599
f. TXT x90600
f. TXT x90601
f. TXT x90602
f. TXT x90603
f. TXT x90604
f. TXT x90605
f. TXT x90606
f. TXT x90607
f. TXT x90608
f. TXT x90609
f. TXT x90610
f. TXT x90611
f. TXT x90612
f. TXT x90613
f. TXT x90614
f. TXT x90615
f. TXT x90616
f. TXT x90617
f. TXT x90618
f. TXT x90619
f. TXT x90620
f. TXT x90621
f. TXT x90622
f. TXT x90623
bzzc. TXT x0z0 bc zy
f. TXT x90625
f. TXT x90626
f. TXT x90627
f. TXT x90628
f. TXT x90629
f. TXT x90630
f. TXT x90631
f. TXT x90632
f. TXT x90633
f. TXT x90634
f. TXT x90635
f. TXT x90636
f. TXT x90637
f. TXT x90638
f. TXT x90639
f. TXT x90640
f. TXT x90641
f. TXT x90642
f. TXT x90643
f. TXT x90644
f. TXT x90645
f. TXT x90646
f. TXT x90647
f. TXT x90648
f. TXT x90649
f. TXT x90650
f. TXT x90651
f. TXT x90652
f. TXT x90653
f. TXT x90654
f. TXT x90655
f. TXT x90656
f. TXT x90657
f. TXT x90658
f. TXT x90659
f. TXT x90660
f. TXT x90661
f. TXT x90662
f. TXT x90663
f. TXT x90664
f. TXT x90665
f. TXT x90666
f. TXT x90667
f. TXT x90668
f. TXT x90669
f. TXT x90670
f. TXT x90671
f. TXT x90672
f. TXT x90673
f. TXT x90674
f. TXT x90675
f. TXT x90676
f. TXT x90677
f. TXT x90678
f. TXT x90679
f. TXT x90680
f. TXT x90681
f. TXT x90682
f. TXT x90683
f. TXT x90684
f. TXT x90685
f. TXT x90686
f. TXT x90687
 A c
f. TXT x90689
f. TXT x90690
f. TXT x90691
f. TXT x90692
f. TXT x90693
f. TXT x90694
f. TXT x90695
f. TXT x90696
f. TXT x90697
f. TXT x90698
f. TXT x90699
f. TXT x90700
f. TXT x90701
f. TXT x90702
f. TXT x90703
f. TXT x90704
f. TXT x90705
f. TXT x90706
f. TXT x90707
f. TXT x90708
f. TXT x90709
f. TXT x90710
f. TXT x90711
f. TXT x90712
f. TXT x90713
f. TXT x90714
f. TXT x90715
f. TXT x90716
f. TXT x90717
f. TXT x90718
f. TXT x90719
f. TXT x90720
f. TXT x90721
f. TXT x90722
f. TXT x90723
f. TXT x90724
f. TXT x90725
f. TXT x90726
f. TXT x90727
f. TXT x90728
f. TXT x90729
f. TXT x90730
f. TXT x90731
f. TXT x90732
f. TXT x90733
f. TXT x90734
f. TXT x90735
f. TXT x90736
f. TXT x90737
f. TXT x90738
f. TXT x90739
f. TXT x90740
f. TXT x90741
f. TXT x90742
f. TXT x90743
f. TXT x90744
f. TXT x90745
f. TXT x90746
f. TXT x90747
f. TXT x90748
f. TXT x90749
f. TXT x90750
f. TXT x90751
-zc A *yz vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv *
f. TXT x90753
f. TXT x90754
f. TXT x90755
f. TXT x90756
f. TXT x90757
f. TXT x90758
f. TXT x90759
f. TXT x90760
f. TXT x90761
f. TXT x90762
f. TXT x90763
f. TXT x90764
f. TXT x90765
f. TXT x90766
f. TXT x90767
f. TXT x90768
f. TXT x90769
f. TXT x90770
f. TXT x90771
f. TXT x90772
f. TXT x90773
f. TXT x90774
f. TXT x90775
f. TXT x90776
f. TXT x90777
f. TXT x90778
f. TXT x90779
f. TXT x90780
f. TXT x90781
f. TXT x90782
f. TXT x90783
f. TXT x90784
f. TXT x90785
f. TXT x90786
f. TXT x90787
f. TXT x90788
f. TXT x90789
f. TXT x90790
f. TXT x90791
f. TXT x90792
f. TXT x90793
f. TXT x90794
f. TXT x90795
f. TXT x90796
f. TXT x90797
f. TXT x90798
f. TXT x90799
f. TXT x90800
f. TXT x90801
f. TXT x90802
f. TXT x90803
f. TXT x90804
f. TXT x90805
f. TXT x90806
f. TXT x90807
f. TXT x90808
f. TXT x90809
f. TXT x90810
f. TXT x90811
f. TXT x90812
f. TXT x90813
f. TXT x90814
f. TXT x90815
$ORIGIN z--0.x.
f. TXT x90817
f. TXT x90818
f. TXT x90819
f. TXT x90820
f. TXT x90821
f. TXT x90822
f. TXT x90823
f. TXT x90824
f. TXT x90825
f. TXT x90826
f. TXT x90827
f. TXT x90828
f. TXT x90829
f. TXT x90830
f. TXT x90831
f. TXT x90832
f. TXT x90833
f. TXT x90834
f. TXT x90835
f. TXT x90836
f. TXT x90837
f. TXT x90838
f. TXT x90839
f. TXT x90840
f. TXT x90841
f. TXT x90842
f. TXT x90843
f. TXT x90844
f. TXT x90845
f. TXT x90846
f. TXT x90847
f. TXT x90848
f. TXT x90849
f. TXT x90850
f. TXT x90851
f. TXT x90852
f. TXT x90853
f. TXT x90854
f. TXT x90855
f. TXT x90856
f. TXT x90857
f. TXT x90858
f. TXT x90859
f. TXT x90860
f. TXT x90861
f. TXT x90862
f. TXT x90863
f. TXT x90864
f. TXT x90865
f. TXT x90866
f. TXT x90867
f. TXT x90868
f. TXT x90869
f. TXT x90870
f. TXT x90871
f. TXT x90872
f. TXT x90873
f. TXT x90874
f. TXT x90875
f. TXT x90876
f. TXT x90877
f. TXT x90878
f. TXT x90879
 A cz
f. TXT x90881
f. TXT x90882
f. TXT x90883
f. TXT x90884
f. TXT x90885
f. TXT x90886
f. TXT x90887
f. TXT x90888
f. TXT x90889
f. TXT x90890
f. TXT x90891
f. TXT x90892
f. TXT x90893
f. TXT x90894
f. TXT x90895
f. TXT x90896
f. TXT x90897
f. TXT x90898
f. TXT x90899
f. TXT x90900
f. TXT x90901
f. TXT x90902
f. TXT x90903
f. TXT x90904
f. TXT x90905
f. TXT x90906
f. TXT x90907
f. TXT x90908
f. TXT x90909
f. TXT x90910
f. TXT x90911
f. TXT x90912
f. TXT x90913
f. TXT x90914
f. TXT x90915
f. TXT x90916
f. TXT x90917
f. TXT x90918
f. TXT x90919
f. TXT x90920
f. TXT x90921
f. TXT x90922
f. TXT x90923
f. TXT x90924
f. TXT x90925
f. TXT x90926
f. TXT x90927
f. TXT x90928
f. TXT x90929
f. TXT x90930
f. TXT x90931
f. TXT x90932
f. TXT x90933
f. TXT x90934
f. TXT x90935
f. TXT x90936
f. TXT x90937
f. TXT x90938
f. TXT x90939
f. TXT x90940
f. TXT x90941
f. TXT x90942
f. TXT x90943
00. TXT 0
f. TXT x90945
f. TXT x90946
f. TXT x90947
f. TXT x90948
f. TXT x90949
f. TXT x90950
f. TXT x90951
f. TXT x90952
f. TXT x90953
f. TXT x90954
f. TXT x90955
f. TXT x90956
f. TXT x90957
f. TXT x90958
f. TXT x90959
f. TXT x90960
f. TXT x90961
f. TXT x90962
f. TXT x90963
f. TXT x90964
f. TXT x90965
f. TXT x90966
f. TXT x90967
f. TXT x90968
f. TXT x90969
f. TXT x90970
f. TXT x90971
f. TXT x90972
f. TXT x90973
f. TXT x90974
f. TXT x90975
f. TXT x90976
f. TXT x90977
f. TXT x90978
f. TXT x90979
f. TXT x90980
f. TXT x90981
f. TXT x90982
f. TXT x90983
f. TXT x90984
f. TXT x90985
f. TXT x90986
f. TXT x90987
f. TXT x90988
f. TXT x90989
f. TXT x90990
f. TXT x90991
f. TXT x90992
f. TXT x90993
f. TXT x90994
f. TXT x90995
f. TXT x90996
f. TXT x90997
f. TXT x90998
f. TXT x90999
f. TXT x91000
f. TXT x91001
f. TXT x91002
f. TXT x91003
f. TXT x91004
f. TXT x91005
f. TXT x91006
f. TXT x91007
-. NS y- zc a
f. TXT x91009
f. TXT x91010
f. TXT x91011
f. TXT x91012
f. TXT x91013
f. TXT x91014
f. TXT x91015
f. TXT x91016
f. TXT x91017
f. TXT x91018
f. TXT x91019
f. TXT x91020
f. TXT x91021
f. TXT x91022
f. TXT x91023
f. TXT x91024
f. TXT x91025
f. TXT x91026
f. TXT x91027
f. TXT x91028
f. TXT x91029
f. TXT x91030
f. TXT x91031
f. TXT x91032
f. TXT x91033
f. TXT x91034
f. TXT x91035
f. TXT x91036
f. TXT x91037
f. TXT x91038
f. TXT x91039
f. TXT x91040
f. TXT x91041
f. TXT x91042
f. TXT x91043
f. TXT x91044
f. TXT x91045
f. TXT x91046
f. TXT x91047
f. TXT x91048
f. TXT x91049
f. TXT x91050
f. TXT x91051
f. TXT x91052
f. TXT x91053
f. TXT x91054
f. TXT x91055
f. TXT x91056
f. TXT x91057
f. TXT x91058
f. TXT x91059
f. TXT x91060
f. TXT x91061
f. TXT x91062
f. TXT x91063
f. TXT x91064
f. TXT x91065
f. TXT x91066
f. TXT x91067
f. TXT x91068
f. TXT x91069
f. TXT x91070
f. TXT x91071
 NS c
f. TXT x91073
f. TXT x91074
f. TXT x91075
f. TXT x91076
f. TXT x91077
f. TXT x91078
f. TXT x91079
f. TXT x91080
f. TXT x91081
f. TXT x91082
f. TXT x91083
f. TXT x91084
f. TXT x91085
f. TXT x91086
f. TXT x91087
f. TXT x91088
f. TXT x91089
f. TXT x91090
f. TXT x91091
f. TXT x91092
f. TXT x91093
f. TXT x91094
f. TXT x91095
f. TXT x91096
f. TXT x91097
f. TXT x91098
f. TXT x91099
f. TXT x91100
f. TXT x91101
f. TXT x91102
f. TXT x91103
f. TXT x91104
f. TXT x91105
f. TXT x91106
f. TXT x91107
f. TXT x91108
f. TXT x91109
f. TXT x91110
f. TXT x91111
f. TXT x91112
f. TXT x91113
f. TXT x91114
f. TXT x91115
f. TXT x91116
f. TXT x91117
f. TXT x91118
f. TXT x91119
f. TXT x91120
f. TXT x91121
f. TXT x91122
f. TXT x91123
f. TXT x91124
f. TXT x91125
f. TXT x91126
f. TXT x91127
f. TXT x91128
f. TXT x91129
f. TXT x91130
f. TXT x91131
f. TXT x91132
f. TXT x91133
f. TXT x91134
f. TXT x91135
c* NS z cy
f. TXT x91137
f. TXT x91138
f. TXT x91139
f. TXT x91140
f. TXT x91141
f. TXT x91142
f. TXT x91143
f. TXT x91144
f. TXT x91145
f. TXT x91146
f. TXT x91147
f. TXT x91148
f. TXT x91149
f. TXT x91150
f. TXT x91151
f. TXT x91152
f. TXT x91153
f. TXT x91154
f. TXT x91155
f. TXT x91156
f. TXT x91157
f. TXT x91158
f. TXT x91159
f. TXT x91160
f. TXT x91161
f. TXT x91162
f. TXT x91163
f. TXT x91164
f. TXT x91165
f. TXT x91166
f. TXT x91167
f. TXT x91168
f. TXT x91169
f. TXT x91170
f. TXT x91171
f. TXT x91172
f. TXT x91173
f. TXT x91174
f. TXT x91175
f. TXT x91176
f. TXT x91177
f. TXT x91178
f. TXT x91179
f. TXT x91180
f. TXT x91181
f. TXT x91182
f. TXT x91183
f. TXT x91184
f. TXT x91185
f. TXT x91186
f. TXT x91187
f. TXT x91188
f. TXT x91189
f. TXT x91190
f. TXT x91191
f. TXT x91192
f. TXT x91193
f. TXT x91194
f. TXT x91195
f. TXT x91196
f. TXT x91197
f. TXT x91198
f. TXT x91199
 A vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
f. TXT x91201
f. TXT x91202
f. TXT x91203
f. TXT x91204
f. TXT x91205
f. TXT x91206
f. TXT x91207
f. TXT x91208
f. TXT x91209
f. TXT x91210
f. TXT x91211
f. TXT x91212
f. TXT x91213
f. TXT x91214
f. TXT x91215
f. TXT x91216
f. TXT x91217
f. TXT x91218
f. TXT x91219
f. TXT x91220
f. TXT x91221
f. TXT x91222
f. TXT x91223
f. TXT x91224
f. TXT x91225
f. TXT x91226
f. TXT x91227
f. TXT x91228
f. TXT x91229
f. TXT x91230
f. TXT x91231
f. TXT x91232
f. TXT x91233
f. TXT x91234
f. TXT x91235
f. TXT x91236
f. TXT x91237
f. TXT x91238
f. TXT x91239
f. TXT x91240
f. TXT x91241
f. TXT x91242
f. TXT x91243
f. TXT x91244
f. TXT x91245
f. TXT x91246
f. TXT x91247
f. TXT x91248
f. TXT x91249
f. TXT x91250
f. TXT x91251
f. TXT x91252
f. TXT x91253
f. TXT x91254
f. TXT x91255
f. TXT x91256
f. TXT x91257
f. TXT x91258
f. TXT x91259
f. TXT x91260
f. TXT x91261
f. TXT x91262
f. TXT x91263
@ A yx0 -xz
f. TXT x91265
f. TXT x91266
f. TXT x91267
f. TXT x91268
f. TXT x91269
f. TXT x91270
f. TXT x91271
f. TXT x91272
f. TXT x91273
f. TXT x91274
f. TXT x91275
f. TXT x91276
f. TXT x91277
f. TXT x91278
f. TXT x91279
f. TXT x91280
f. TXT x91281
f. TXT x91282
f. TXT x91283
f. TXT x91284
f. TXT x91285
f. TXT x91286
f. TXT x91287
f. TXT x91288
f. TXT x91289
f. TXT x91290
f. TXT x91291
f. TXT x91292
f. TXT x91293
f. TXT x91294
f. TXT x91295
f. TXT x91296
f. TXT x91297
f. TXT x91298
f. TXT x91299
f. TXT x91300
f. TXT x91301
f. TXT x91302
f. TXT x91303
f. TXT x91304
f. TXT x91305
f. TXT x91306
f. TXT x91307
f. TXT x91308
f. TXT x91309
f. TXT x91310
f. TXT x91311
f. TXT x91312
f. TXT x91313
f. TXT x91314
f. TXT x91315
f. TXT x91316
f. TXT x91317
f. TXT x91318
f. TXT x91319
f. TXT x91320
f. TXT x91321
f. TXT x91322
f. TXT x91323
f. TXT x91324
f. TXT x91325
f. TXT x91326
f. TXT x91327
xy A z**a
f. TXT x91329
f. TXT x91330
f. TXT x91331
f. TXT x91332
f. TXT x91333
f. TXT x91334
f. TXT x91335
f. TXT x91336
f. TXT x91337
f. TXT x91338
f. TXT x91339
f. TXT x91340
f. TXT x91341
f. TXT x91342
f. TXT x91343
f. TXT x91344
f. TXT x91345
f. TXT x91346
f. TXT x91347
f. TXT x91348
f. TXT x91349
f. TXT x91350
f. TXT x91351
f. TXT x91352
f. TXT x91353
f. TXT x91354
f. TXT x91355
f. TXT x91356
f. TXT x91357
f. TXT x91358
f. TXT x91359
f. TXT x91360
f. TXT x91361
f. TXT x91362
f. TXT x91363
f. TXT x91364
f. TXT x91365
f. TXT x91366
f. TXT x91367
f. TXT x91368
f. TXT x91369
f. TXT x91370
f. TXT x91371
f. TXT x91372
f. TXT x91373
f. TXT x91374
f. TXT x91375
f. TXT x91376
f. TXT x91377
f. TXT x91378
f. TXT x91379
f. TXT x91380
f. TXT x91381
f. TXT x91382
f. TXT x91383
f. TXT x91384
f. TXT x91385
f. TXT x91386
f. TXT x91387
f. TXT x91388
f. TXT x91389
f. TXT x91390
f. TXT x91391
czz.-b. TXT xxxy bcz-
f. TXT x91393
f. TXT x91394
f. TXT x91395
f. TXT x91396
f. TXT x91397
f. TXT x91398
f. TXT x91399
f. TXT x91400
f. TXT x91401
f. TXT x91402
f. TXT x91403
f. TXT x91404
f. TXT x91405
f. TXT x91406
f. TXT x91407
f. TXT x91408
f. TXT x91409
f. TXT x91410
f. TXT x91411
f. TXT x91412
f. TXT x91413
f. TXT x91414
f. TXT x91415
f. TXT x91416
f. TXT x91417
f. TXT x91418
f. TXT x91419
f. TXT x91420
f. TXT x91421
f. TXT x91422
f. TXT x91423
f. TXT x91424
f. TXT x91425
f. TXT x91426
f. TXT x91427
f. TXT x91428
f. TXT x91429
f. TXT x91430
f. TXT x91431
f. TXT x91432
f. TXT x91433
f. TXT x91434
f. TXT x91435
f. TXT x91436
f. TXT x91437
f. TXT x91438
f. TXT x91439
f. TXT x91440
f. TXT x91441
f. TXT x91442
f. TXT x91443
f. TXT x91444
f. TXT x91445
f. TXT x91446
f. TXT x91447
f. TXT x91448
f. TXT x91449
f. TXT x91450
f. TXT x91451
f. TXT x91452
f. TXT x91453
f. TXT x91454
f. TXT x91455
c. NS -ca*
f. TXT x91457
f. TXT x91458
f. TXT x91459
f. TXT x91460
f. TXT x91461
f. TXT x91462
f. TXT x91463
f. TXT x91464
f. TXT x91465
f. TXT x91466
f. TXT x91467
f. TXT x91468
f. TXT x91469
f. TXT x91470
f. TXT x91471
f. TXT x91472
f. TXT x91473
f. TXT x91474
f. TXT x91475
f. TXT x91476
f. TXT x91477
f. TXT x91478
f. TXT x91479
f. TXT x91480
f. TXT x91481
f. TXT x91482
f. TXT x91483
f. TXT x91484
f. TXT x91485
f. TXT x91486
f. TXT x91487
f. TXT x91488
f. TXT x91489
f. TXT x91490
f. TXT x91491
f. TXT x91492
f. TXT x91493
f. TXT x91494
f. TXT x91495
f. TXT x91496
f. TXT x91497
f. TXT x91498
f. TXT x91499
f. TXT x91500
f. TXT x91501
f. TXT x91502
f. TXT x91503
f. TXT x91504
f. TXT x91505
f. TXT x91506
f. TXT x91507
f. TXT x91508
f. TXT x91509
f. TXT x91510
f. TXT x91511
f. TXT x91512
f. TXT x91513
f. TXT x91514
f. TXT x91515
f. TXT x91516
f. TXT x91517
f. TXT x91518
f. TXT x91519
cya.cy-. TXT *c x yyyx
f. TXT x91521
f. TXT x91522
f. TXT x91523
f. TXT x91524
f. TXT x91525
f. TXT x91526
f. TXT x91527
f. TXT x91528
f. TXT x91529
f. TXT x91530
f. TXT x91531
f. TXT x91532
f. TXT x91533
f. TXT x91534
f. TXT x91535
f. TXT x91536
f. TXT x91537
f. TXT x91538
f. TXT x91539
f. TXT x91540
f. TXT x91541
f. TXT x91542
f. TXT x91543
f. TXT x91544
f. TXT x91545
f. TXT x91546
f. TXT x91547
f. TXT x91548
f. TXT x91549
f. TXT x91550
f. TXT x91551
f. TXT x91552
f. TXT x91553
f. TXT x91554
f. TXT x91555
f. TXT x91556
f. TXT x91557
f. TXT x91558
f. TXT x91559
f. TXT x91560
f. TXT x91561
f. TXT x91562
f. TXT x91563
f. TXT x91564
f. TXT x91565
f. TXT x91566
f. TXT x91567
f. TXT x91568
f. TXT x91569
f. TXT x91570
f. TXT x91571
f. TXT x91572
f. TXT x91573
f. TXT x91574
f. TXT x91575
f. TXT x91576
f. TXT x91577
f. TXT x91578
f. TXT x91579
f. TXT x91580
f. TXT x91581
f. TXT x91582
f. TXT x91583
z. NS c y
f. TXT x91585
f. TXT x91586
f. TXT x91587
f. TXT x91588
f. TXT x91589
f. TXT x91590
f. TXT x91591
f. TXT x91592
f. TXT x91593
f. TXT x91594
f. TXT x91595
f. TXT x91596
f. TXT x91597
f. TXT x91598
f. TXT x91599
f. TXT x91600
f. TXT x91601
f. TXT x91602
f. TXT x91603
f. TXT x91604
f. TXT x91605
f. TXT x91606
f. TXT x91607
f. TXT x91608
f. TXT x91609
f. TXT x91610
f. TXT x91611
f. TXT x91612
f. TXT x91613
f. TXT x91614
f. TXT x91615
f. TXT x91616
f. TXT x91617
f. TXT x91618
f. TXT x91619
f. TXT x91620
f. TXT x91621
f. TXT x91622
f. TXT x91623
f. TXT x91624
f. TXT x91625
f. TXT x91626
f. TXT x91627
f. TXT x91628
f. TXT x91629
f. TXT x91630
f. TXT x91631
f. TXT x91632
f. TXT x91633
f. TXT x91634
f. TXT x91635
f. TXT x91636
f. TXT x91637
f. TXT x91638
f. TXT x91639
f. TXT x91640
f. TXT x91641
f. TXT x91642
f. TXT x91643
f. TXT x91644
f. TXT x91645
f. TXT x91646
f. TXT x91647
0a TXT aax aa
f. TXT x91649
f. TXT x91650
f. TXT x91651
f. TXT x91652
f. TXT x91653
f. TXT x91654
f. TXT x91655
f. TXT x91656
f. TXT x91657
f. TXT x91658
f. TXT x91659
f. TXT x91660
f. TXT x91661
f. TXT x91662
f. TXT x91663
f. TXT x91664
f. TXT x91665
f. TXT x91666
f. TXT x91667
f. TXT x91668
f. TXT x91669
f. TXT x91670
f. TXT x91671
f. TXT x91672
f. TXT x91673
f. TXT x91674
f. TXT x91675
f. TXT x91676
f. TXT x91677
f. TXT x91678
f. TXT x91679
f. TXT x91680
f. TXT x91681
f. TXT x91682
f. TXT x91683
f. TXT x91684
f. TXT x91685
f. TXT x91686
f. TXT x91687
f. TXT x91688
f. TXT x91689
f. TXT x91690
f. TXT x91691
f. TXT x91692
f. TXT x91693
f. TXT x91694
f. TXT x91695
f. TXT x91696
f. TXT x91697
f. TXT x91698
f. TXT x91699
f. TXT x91700
f. TXT x91701
f. TXT x91702
f. TXT x91703
f. TXT x91704
f. TXT x91705
f. TXT x91706
f. TXT x91707
f. TXT x91708
f. TXT x91709
f. TXT x91710
f. TXT x91711
a*z* TXT 00y bz* bb
f. TXT x91713
f. TXT x91714
f. TXT x91715
f. TXT x91716
f. TXT x91717
f. TXT x91718
f. TXT x91719
f. TXT x91720
f. TXT x91721
f. TXT x91722
f. TXT x91723
f. TXT x91724
f. TXT x91725
f. TXT x91726
f. TXT x91727
f. TXT x91728
f. TXT x91729
f. TXT x91730
f. TXT x91731
f. TXT x91732
f. TXT x91733
f. TXT x91734
f. TXT x91735
f. TXT x91736
f. TXT x91737
f. TXT x91738
f. TXT x91739
f. TXT x91740
f. TXT x91741
f. TXT x91742
f. TXT x91743
f. TXT x91744
f. TXT x91745
f. TXT x91746
f. TXT x91747
f. TXT x91748
f. TXT x91749
f. TXT x91750
f. TXT x91751
f. TXT x91752
f. TXT x91753
f. TXT x91754
f. TXT x91755
f. TXT x91756
f. TXT x91757
f. TXT x91758
f. TXT x91759
f. TXT x91760
f. TXT x91761
f. TXT x91762
f. TXT x91763
f. TXT x91764
f. TXT x91765
f. TXT x91766
f. TXT x91767
f. TXT x91768
f. TXT x91769
f. TXT x91770
f. TXT x91771
f. TXT x91772
f. TXT x91773
f. TXT x91774
f. TXT x91775
 A bxaz -*a0
f. TXT x91777
f. TXT x91778
f. TXT x91779
f. TXT x91780
f. TXT x91781
f. TXT x91782
f. TXT x91783
f. TXT x91784
f. TXT x91785
f. TXT x91786
f. TXT x91787
f. TXT x91788
f. TXT x91789
f. TXT x91790
f. TXT x91791
f. TXT x91792
f. TXT x91793
f. TXT x91794
f. TXT x91795
f. TXT x91796
f. TXT x91797
f. TXT x91798
f. TXT x91799
f. TXT x91800
f. TXT x91801
f. TXT x91802
f. TXT x91803
f. TXT x91804
f. TXT x91805
f. TXT x91806
f. TXT x91807
f. TXT x91808
f. TXT x91809
f. TXT x91810
f. TXT x91811
f. TXT x91812
f. TXT x91813
f. TXT x91814
f. TXT x91815
f. TXT x91816
f. TXT x91817
f. TXT x91818
f. TXT x91819
f. TXT x91820
f. TXT x91821
f. TXT x91822
f. TXT x91823
f. TXT x91824
f. TXT x91825
f. TXT x91826
f. TXT x91827
f. TXT x91828
f. TXT x91829
f. TXT x91830
f. TXT x91831
f. TXT x91832
f. TXT x91833
f. TXT x91834
f. TXT x91835
f. TXT x91836
f. TXT x91837
f. TXT x91838
f. TXT x91839
b A 0-cz
f. TXT x91841
f. TXT x91842
f. TXT x91843
f. TXT x91844
f. TXT x91845
f. TXT x91846
f. TXT x91847
f. TXT x91848
f. TXT x91849
f. TXT x91850
f. TXT x91851
f. TXT x91852
f. TXT x91853
f. TXT x91854
f. TXT x91855
f. TXT x91856
f. TXT x91857
f. TXT x91858
f. TXT x91859
f. TXT x91860
f. TXT x91861
f. TXT x91862
f. TXT x91863
f. TXT x91864
f. TXT x91865
f. TXT x91866
f. TXT x91867
f. TXT x91868
f. TXT x91869
f. TXT x91870
f. TXT x91871
f. TXT x91872
f. TXT x91873
f. TXT x91874
f. TXT x91875
f. TXT x91876
f. TXT x91877
f. TXT x91878
f. TXT x91879
f. TXT x91880
f. TXT x91881
f. TXT x91882
f. TXT x91883
f. TXT x91884
f. TXT x91885
f. TXT x91886
f. TXT x91887
f. TXT x91888
f. TXT x91889
f. TXT x91890
f. TXT x91891
f. TXT x91892
f. TXT x91893
f. TXT x91894
f. TXT x91895
f. TXT x91896
f. TXT x91897
f. TXT x91898
f. TXT x91899
f. TXT x91900
f. TXT x91901
f. TXT x91902
f. TXT x91903
 NS y- ycx 0z
f. TXT x91905
f. TXT x91906
f. TXT x91907
f. TXT x91908
f. TXT x91909
f. TXT x91910
f. TXT x91911
f. TXT x91912
f. TXT x91913
f. TXT x91914
f. TXT x91915
f. TXT x91916
f. TXT x91917
f. TXT x91918
f. TXT x91919
f. TXT x91920
f. TXT x91921
f. TXT x91922
f. TXT x91923
f. TXT x91924
f. TXT x91925
f. TXT x91926
f. TXT x91927
f. TXT x91928
f. TXT x91929
f. TXT x91930
f. TXT x91931
f. TXT x91932
f. TXT x91933
f. TXT x91934
f. TXT x91935
f. TXT x91936
f. TXT x91937
f. TXT x91938
f. TXT x91939
f. TXT x91940
f. TXT x91941
f. TXT x91942
f. TXT x91943
f. TXT x91944
f. TXT x91945
f. TXT x91946
f. TXT x91947
f. TXT x91948
f. TXT x91949
f. TXT x91950
f. TXT x91951
f. TXT x91952
f. TXT x91953
f. TXT x91954
f. TXT x91955
f. TXT x91956
f. TXT x91957
f. TXT x91958
f. TXT x91959
f. TXT x91960
f. TXT x91961
f. TXT x91962
f. TXT x91963
f. TXT x91964
f. TXT x91965
f. TXT x91966
f. TXT x91967
ac-a. NS *- b*z a*0z
f. TXT x91969
f. TXT x91970
f. TXT x91971
f. TXT x91972
f. TXT x91973
f. TXT x91974
f. TXT x91975
f. TXT x91976
f. TXT x91977
f. TXT x91978
f. TXT x91979
f. TXT x91980
f. TXT x91981
f. TXT x91982
f. TXT x91983
f. TXT x91984
f. TXT x91985
f. TXT x91986
f. TXT x91987
f. TXT x91988
f. TXT x91989
f. TXT x91990
f. TXT x91991
f. TXT x91992
f. TXT x91993
f. TXT x91994
f. TXT x91995
f. TXT x91996
f. TXT x91997
f. TXT x91998
f. TXT x91999
f. TXT x92000
f. TXT x92001
f. TXT x92002
f. TXT x92003
f. TXT x92004
f. TXT x92005
f. TXT x92006
f. TXT x92007
f. TXT x92008
f. TXT x92009
f. TXT x92010
f. TXT x92011
f. TXT x92012
f. TXT x92013
f. TXT x92014
f. TXT x92015
f. TXT x92016
f. TXT x92017
f. TXT x92018
f. TXT x92019
f. TXT x92020
f. TXT x92021
f. TXT x92022
f. TXT x92023
f. TXT x92024
f. TXT x92025
f. TXT x92026
f. TXT x92027
f. TXT x92028
f. TXT x92029
f. TXT x92030
f. TXT x92031

f. TXT x92033
f. TXT x92034
f. TXT x92035
f. TXT x92036
f. TXT x92037
f. TXT x92038
f. TXT x92039
f. TXT x92040
f. TXT x92041
f. TXT x92042
f. TXT x92043
f. TXT x92044
f. TXT x92045
f. TXT x92046
f. TXT x92047
f. TXT x92048
f. TXT x92049
f. TXT x92050
f. TXT x92051
f. TXT x92052
f. TXT x92053
f. TXT x92054
f. TXT x92055
f. TXT x92056
f. TXT x92057
f. TXT x92058
f. TXT x92059
f. TXT x92060
f. TXT x92061
f. TXT x92062
f. TXT x92063
f. TXT x92064
f. TXT x92065
f. TXT x92066
f. TXT x92067
f. TXT x92068
f. TXT x92069
f. TXT x92070
f. TXT x92071
f. TXT x92072
f. TXT x92073
f. TXT x92074
f. TXT x92075
f. TXT x92076
f. TXT x92077
f. TXT x92078
f. TXT x92079
f. TXT x92080
f. TXT x92081
f. TXT x92082
f. TXT x92083
f. TXT x92084
f. TXT x92085
f. TXT x92086
f. TXT x92087
f. TXT x92088
f. TXT x92089
f. TXT x92090
f. TXT x92091
f. TXT x92092
f. TXT x92093
f. TXT x92094
f. TXT x92095

f. TXT x92097
f. TXT x92098
f. TXT x92099
f. TXT x92100
f. TXT x92101
f. TXT x92102
f. TXT x92103
f. TXT x92104
f. TXT x92105
f. TXT x92106
f. TXT x92107
f. TXT x92108
f. TXT x92109
f. TXT x92110
f. TXT x92111
f. TXT x92112
f. TXT x92113
f. TXT x92114
f. TXT x92115
f. TXT x92116
f. TXT x92117
f. TXT x92118
f. TXT x92119
f. TXT x92120
f. TXT x92121
f. TXT x92122
f. TXT x92123
f. TXT x92124
f. TXT x92125
f. TXT x92126
f. TXT x92127
f. TXT x92128
f. TXT x92129
f. TXT x92130
f. TXT x92131
f. TXT x92132
f. TXT x92133
f. TXT x92134
f. TXT x92135
f. TXT x92136
f. TXT x92137
f. TXT x92138
f. TXT x92139
f. TXT x92140
f. TXT x92141
f. TXT x92142
f. TXT x92143
f. TXT x92144
f. TXT x92145
f. TXT x92146
f. TXT x92147
f. TXT x92148
f. TXT x92149
f. TXT x92150
f. TXT x92151
f. TXT x92152
f. TXT x92153
f. TXT x92154
f. TXT x92155
f. TXT x92156
f. TXT x92157
f. TXT x92158
f. TXT x92159
 NS bc zx* y*y
f. TXT x92161
f. TXT x92162
f. TXT x92163
f. TXT x92164
f. TXT x92165
f. TXT x92166
f. TXT x92167
f. TXT x92168
f. TXT x92169
f. TXT x92170
f. TXT x92171
f. TXT x92172
f. TXT x92173
f. TXT x92174
f. TXT x92175
f. TXT x92176
f. TXT x92177
f. TXT x92178
f. TXT x92179
f. TXT x92180
f. TXT x92181
f. TXT x92182
f. TXT x92183
f. TXT x92184
f. TXT x92185
f. TXT x92186
f. TXT x92187
f. TXT x92188
f. TXT x92189
f. TXT x92190
f. TXT x92191
f. TXT x92192
f. TXT x92193
f. TXT x92194
f. TXT x92195
f. TXT x92196
f. TXT x92197
f. TXT x92198
f. TXT x92199
f. TXT x92200
f. TXT x92201
f. TXT x92202
f. TXT x92203
f. TXT x92204
f. TXT x92205
f. TXT x92206
f. TXT x92207
f. TXT x92208
f. TXT x92209
f. TXT x92210
f. TXT x92211
f. TXT x92212
f. TXT x92213
f. TXT x92214
f. TXT x92215
f. TXT x92216
f. TXT x92217
f. TXT x92218
f. TXT x92219
f. TXT x92220
f. TXT x92221
f. TXT x92222
f. TXT x92223
$ORIGIN ax0-.aa.
f. TXT x92225
f. TXT x92226
f. TXT x92227
f. TXT x92228
f. TXT x92229
f. TXT x92230
f. TXT x92231
f. TXT x92232
f. TXT x92233
f. TXT x92234
f. TXT x92235
f. TXT x92236
f. TXT x92237
f. TXT x92238
f. TXT x92239
f. TXT x92240
f. TXT x92241
f. TXT x92242
f. TXT x92243
f. TXT x92244
f. TXT x92245
f. TXT x92246
f. TXT x92247
f. TXT x92248
f. TXT x92249
f. TXT x92250
f. TXT x92251
f. TXT x92252
f. TXT x92253
f. TXT x92254
f. TXT x92255
f. TXT x92256
f. TXT x92257
f. TXT x92258
f. TXT x92259
f. TXT x92260
f. TXT x92261
f. TXT x92262
f. TXT x92263
f. TXT x92264
f. TXT x92265
f. TXT x92266
f. TXT x92267
f. TXT x92268
f. TXT x92269
f. TXT x92270
f. TXT x92271
f. TXT x92272
f. TXT x92273
f. TXT x92274
f. TXT x92275
f. TXT x92276
f. TXT x92277
f. TXT x92278
f. TXT x92279
f. TXT x92280
f. TXT x92281
f. TXT x92282
f. TXT x92283
f. TXT x92284
f. TXT x92285
f. TXT x92286
f. TXT x92287
0ab- TXT y0a0 y* czb*
f. TXT x92289
f. TXT x92290
f. TXT x92291
f. TXT x92292
f. TXT x92293
f. TXT x92294
f. TXT x92295
f. TXT x92296
f. TXT x92297
f. TXT x92298
f. TXT x92299
f. TXT x92300
f. TXT x92301
f. TXT x92302
f. TXT x92303
f. TXT x92304
f. TXT x92305
f. TXT x92306
f. TXT x92307
f. TXT x92308
f. TXT x92309
f. TXT x92310
f. TXT x92311
f. TXT x92312
f. TXT x92313
f. TXT x92314
f. TXT x92315
f. TXT x92316
f. TXT x92317
f. TXT x92318
f. TXT x92319
f. TXT x92320
f. TXT x92321
f. TXT x92322
f. TXT x92323
f. TXT x92324
f. TXT x92325
f. TXT x92326
f. TXT x92327
f. TXT x92328
f. TXT x92329
f. TXT x92330
f. TXT x92331
f. TXT x92332
f. TXT x92333
f. TXT x92334
f. TXT x92335
f. TXT x92336
f. TXT x92337
f. TXT x92338
f. TXT x92339
f. TXT x92340
f. TXT x92341
f. TXT x92342
f. TXT x92343
f. TXT x92344
f. TXT x92345
f. TXT x92346
f. TXT x92347
f. TXT x92348
f. TXT x92349
f. TXT x92350
f. TXT x92351
c*cb NS c
f. TXT x92353
f. TXT x92354
f. TXT x92355
f. TXT x92356
f. TXT x92357
f. TXT x92358
f. TXT x92359
f. TXT x92360
f. TXT x92361
f. TXT x92362
f. TXT x92363
f. TXT x92364
f. TXT x92365
f. TXT x92366
f. TXT x92367
f. TXT x92368
f. TXT x92369
f. TXT x92370
f. TXT x92371
f. TXT x92372
f. TXT x92373
f. TXT x92374
f. TXT x92375
f. TXT x92376
f. TXT x92377
f. TXT x92378
f. TXT x92379
f. TXT x92380
f. TXT x92381
f. TXT x92382
f. TXT x92383
f. TXT x92384
f. TXT x92385
f. TXT x92386
f. TXT x92387
f. TXT x92388
f. TXT x92389
f. TXT x92390
f. TXT x92391
f. TXT x92392
f. TXT x92393
f. TXT x92394
f. TXT x92395
f. TXT x92396
f. TXT x92397
f. TXT x92398
f. TXT x92399
f. TXT x92400
f. TXT x92401
f. TXT x92402
f. TXT x92403
f. TXT x92404
f. TXT x92405
f. TXT x92406
f. TXT x92407
f. TXT x92408
f. TXT x92409
f. TXT x92410
f. TXT x92411
f. TXT x92412
f. TXT x92413
f. TXT x92414
f. TXT x92415
 TXT *
f. TXT x92417
f. TXT x92418
f. TXT x92419
f. TXT x92420
f. TXT x92421
f. TXT x92422
f. TXT x92423
f. TXT x92424
f. TXT x92425
f. TXT x92426
f. TXT x92427
f. TXT x92428
f. TXT x92429
f. TXT x92430
f. TXT x92431
f. TXT x92432
f. TXT x92433
f. TXT x92434
f. TXT x92435
f. TXT x92436
f. TXT x92437
f. TXT x92438
f. TXT x92439
f. TXT x92440
f. TXT x92441
f. TXT x92442
f. TXT x92443
f. TXT x92444
f. TXT x92445
f. TXT x92446
f. TXT x92447
f. TXT x92448
f. TXT x92449
f. TXT x92450
f. TXT x92451
f. TXT x92452
f. TXT x92453
f. TXT x92454
f. TXT x92455
f. TXT x92456
f. TXT x92457
f. TXT x92458
f. TXT x92459
f. TXT x92460
f. TXT x92461
f. TXT x92462
f. TXT x92463
f. TXT x92464
f. TXT x92465
f. TXT x92466
f. TXT x92467
f. TXT x92468
f. TXT x92469
f. TXT x92470
f. TXT x92471
f. TXT x92472
f. TXT x92473
f. TXT x92474
f. TXT x92475
f. TXT x92476
f. TXT x92477
f. TXT x92478
f. TXT x92479
$ORIGIN c-z.
f. TXT x92481
f. TXT x92482
f. TXT x92483
f. TXT x92484
f. TXT x92485
f. TXT x92486
f. TXT x92487
f. TXT x92488
f. TXT x92489
f. TXT x92490
f. TXT x92491
f. TXT x92492
f. TXT x92493
f. TXT x92494
f. TXT x92495
f. TXT x92496
f. TXT x92497
f. TXT x92498
f. TXT x92499
f. TXT x92500
f. TXT x92501
f. TXT x92502
f. TXT x92503
f. TXT x92504
f. TXT x92505
f. TXT x92506
f. TXT x92507
f. TXT x92508
f. TXT x92509
f. TXT x92510
f. TXT x92511
f. TXT x92512
f. TXT x92513
f. TXT x92514
f. TXT x92515
f. TXT x92516
f. TXT x92517
f. TXT x92518
f. TXT x92519
f. TXT x92520
f. TXT x92521
f. TXT x92522
f. TXT x92523
f. TXT x92524
f. TXT x92525
f. TXT x92526
f. TXT x92527
f. TXT x92528
f. TXT x92529
f. TXT x92530
f. TXT x92531
f. TXT x92532
f. TXT x92533
f. TXT x92534
f. TXT x92535
f. TXT x92536
f. TXT x92537
f. TXT x92538
f. TXT x92539
f. TXT x92540
f. TXT x92541
f. TXT x92542
f. TXT x92543
$ORIGIN czz.*0x.
f. TXT x92545
f. TXT x92546
f. TXT x92547
f. TXT x92548
f. TXT x92549
f. TXT x92550
f. TXT x92551
f. TXT x92552
f. TXT x92553
f. TXT x92554
f. TXT x92555
f. TXT x92556
f. TXT x92557
f. TXT x92558
f. TXT x92559
f. TXT x92560
f. TXT x92561
f. TXT x92562
f. TXT x92563
f. TXT x92564
f. TXT x92565
f. TXT x92566
f. TXT x92567
f. TXT x92568
f. TXT x92569
f. TXT x92570
f. TXT x92571
f. TXT x92572
f. TXT x92573
f. TXT x92574
f. TXT x92575
f. TXT x92576
f. TXT x92577
f. TXT x92578
f. TXT x92579
f. TXT x92580
f. TXT x92581
f. TXT x92582
f. TXT x92583
f. TXT x92584
f. TXT x92585
f. TXT x92586
f. TXT x92587
f. TXT x92588
f. TXT x92589
f. TXT x92590
f. TXT x92591
f. TXT x92592
f. TXT x92593
f. TXT x92594
f. TXT x92595
f. TXT x92596
f. TXT x92597
f. TXT x92598
f. TXT x92599
f. TXT x92600
f. TXT x92601
f. TXT x92602
f. TXT x92603
f. TXT x92604
f. TXT x92605
f. TXT x92606
f. TXT x92607
@ NS 0 x *x*
f. TXT x92609
f. TXT x92610
f. TXT x92611
f. TXT x92612
f. TXT x92613
f. TXT x92614
f. TXT x92615
f. TXT x92616
f. TXT x92617
f. TXT x92618
f. TXT x92619
f. TXT x92620
f. TXT x92621
f. TXT x92622
f. TXT x92623
f. TXT x92624
f. TXT x92625
f. TXT x92626
f. TXT x92627
f. TXT x92628
f. TXT x92629
f. TXT x92630
f. TXT x92631
f. TXT x92632
f. TXT x92633
f. TXT x92634
f. TXT x92635
f. TXT x92636
f. TXT x92637
f. TXT x92638
f. TXT x92639
f. TXT x92640
f. TXT x92641
f. TXT x92642
f. TXT x92643
f. TXT x92644
f. TXT x92645
f. TXT x92646
f. TXT x92647
f. TXT x92648
f. TXT x92649
f. TXT x92650
f. TXT x92651
f. TXT x92652
f. TXT x92653
f. TXT x92654
f. TXT x92655
f. TXT x92656
f. TXT x92657
f. TXT x92658
f. TXT x92659
f. TXT x92660
f. TXT x92661
f. TXT x92662
f. TXT x92663
f. TXT x92664
f. TXT x92665
f. TXT x92666
f. TXT x92667
f. TXT x92668
f. TXT x92669
f. TXT x92670
f. TXT x92671
@ A bxbc zxyc c-*
f. TXT x92673
f. TXT x92674
f. TXT x92675
f. TXT x92676
f. TXT x92677
f. TXT x92678
f. TXT x92679
f. TXT x92680
f. TXT x92681
f. TXT x92682
f. TXT x92683
f. TXT x92684
f. TXT x92685
f. TXT x92686
f. TXT x92687
f. TXT x92688
f. TXT x92689
f. TXT x92690
f. TXT x92691
f. TXT x92692
f. TXT x92693
f. TXT x92694
f. TXT x92695
f. TXT x92696
f. TXT x92697
f. TXT x92698
f. TXT x92699
f. TXT x92700
f. TXT x92701
f. TXT x92702
f. TXT x92703
f. TXT x92704
f. TXT x92705
f. TXT x92706
f. TXT x92707
f. TXT x92708
f. TXT x92709
f. TXT x92710
f. TXT x92711
f. TXT x92712
f. TXT x92713
f. TXT x92714
f. TXT x92715
f. TXT x92716
f. TXT x92717
f. TXT x92718
f. TXT x92719
f. TXT x92720
f. TXT x92721
f. TXT x92722
f. TXT x92723
f. TXT x92724
f. TXT x92725
f. TXT x92726
f. TXT x92727
f. TXT x92728
f. TXT x92729
f. TXT x92730
f. TXT x92731
f. TXT x92732
f. TXT x92733
f. TXT x92734
f. TXT x92735
@ NS 0b
f. TXT x92737
f. TXT x92738
f. TXT x92739
f. TXT x92740
f. TXT x92741
f. TXT x92742
f. TXT x92743
f. TXT x92744
f. TXT x92745
f. TXT x92746
f. TXT x92747
f. TXT x92748
f. TXT x92749
f. TXT x92750
f. TXT x92751
f. TXT x92752
f. TXT x92753
f. TXT x92754
f. TXT x92755
f. TXT x92756
f. TXT x92757
f. TXT x92758
f. TXT x92759
f. TXT x92760
f. TXT x92761
f. TXT x92762
f. TXT x92763
f. TXT x92764
f. TXT x92765
f. TXT x92766
f. TXT x92767
f. TXT x92768
f. TXT x92769
f. TXT x92770
f. TXT x92771
f. TXT x92772
f. TXT x92773
f. TXT x92774
f. TXT x92775
f. TXT x92776
f. TXT x92777
f. TXT x92778
f. TXT x92779
f. TXT x92780
f. TXT x92781
f. TXT x92782
f. TXT x92783
f. TXT x92784
f. TXT x92785
f. TXT x92786
f. TXT x92787
f. TXT x92788
f. TXT x92789
f. TXT x92790
f. TXT x92791
f. TXT x92792
f. TXT x92793
f. TXT x92794
f. TXT x92795
f. TXT x92796
f. TXT x92797
f. TXT x92798
f. TXT x92799
cz.0-*. TXT 00x
f. TXT x92801
f. TXT x92802
f. TXT x92803
f. TXT x92804
f. TXT x92805
f. TXT x92806
f. TXT x92807
f. TXT x92808
f. TXT x92809
f. TXT x92810
f. TXT x92811
f. TXT x92812
f. TXT x92813
f. TXT x92814
f. TXT x92815
f. TXT x92816
f. TXT x92817
f. TXT x92818
f. TXT x92819
f. TXT x92820
f. TXT x92821
f. TXT x92822
f. TXT x92823
f. TXT x92824
f. TXT x92825
f. TXT x92826
f. TXT x92827
f. TXT x92828
f. TXT x92829
f. TXT x92830
f. TXT x92831
f. TXT x92832
f. TXT x92833
f. TXT x92834
f. TXT x92835
f. TXT x92836
f. TXT x92837
f. TXT x92838
f. TXT x92839
f. TXT x92840
f. TXT x92841
f. TXT x92842
f. TXT x92843
f. TXT x92844
f. TXT x92845
f. TXT x92846
f. TXT x92847
f. TXT x92848
f. TXT x92849
f. TXT x92850
f. TXT x92851
f. TXT x92852
f. TXT x92853
f. TXT x92854
f. TXT x92855
f. TXT x92856
f. TXT x92857
f. TXT x92858
f. TXT x92859
f. TXT x92860
f. TXT x92861
f. TXT x92862
f. TXT x92863
yxzx. TXT z
f. TXT x92865
f. TXT x92866
f. TXT x92867
f. TXT x92868
f. TXT x92869
f. TXT x92870
f. TXT x92871
f. TXT x92872
f. TXT x92873
f. TXT x92874
f. TXT x92875
f. TXT x92876
f. TXT x92877
f. TXT x92878
f. TXT x92879
f. TXT x92880
f. TXT x92881
f. TXT x92882
f. TXT x92883
f. TXT x92884
f. TXT x92885
f. TXT x92886
f. TXT x92887
f. TXT x92888
f. TXT x92889
f. TXT x92890
f. TXT x92891
f. TXT x92892
f. TXT x92893
f. TXT x92894
f. TXT x92895
f. TXT x92896
f. TXT x92897
f. TXT x92898
f. TXT x92899
f. TXT x92900
f. TXT x92901
f. TXT x92902
f. TXT x92903
f. TXT x92904
f. TXT x92905
f. TXT x92906
f. TXT x92907
f. TXT x92908
f. TXT x92909
f. TXT x92910
f. TXT x92911
f. TXT x92912
f. TXT x92913
f. TXT x92914
f. TXT x92915
f. TXT x92916
f. TXT x92917
f. TXT x92918
f. TXT x92919
f. TXT x92920
f. TXT x92921
f. TXT x92922
f. TXT x92923
f. TXT x92924
f. TXT x92925
f. TXT x92926
f. TXT x92927

f. TXT x92929
f. TXT x92930
f. TXT x92931
f. TXT x92932
f. TXT x92933
f. TXT x92934
f. TXT x92935
f. TXT x92936
f. TXT x92937
f. TXT x92938
f. TXT x92939
f. TXT x92940
f. TXT x92941
f. TXT x92942
f. TXT x92943
f. TXT x92944
f. TXT x92945
f. TXT x92946
f. TXT x92947
f. TXT x92948
f. TXT x92949
f. TXT x92950
f. TXT x92951
f. TXT x92952
f. TXT x92953
f. TXT x92954
f. TXT x92955
f. TXT x92956
f. TXT x92957
f. TXT x92958
f. TXT x92959
f. TXT x92960
f. TXT x92961
f. TXT x92962
f. TXT x92963
f. TXT x92964
f. TXT x92965
f. TXT x92966
f. TXT x92967
f. TXT x92968
f. TXT x92969
f. TXT x92970
f. TXT x92971
f. TXT x92972
f. TXT x92973
f. TXT x92974
f. TXT x92975
f. TXT x92976
f. TXT x92977
f. TXT x92978
f. TXT x92979
f. TXT x92980
f. TXT x92981
f. TXT x92982
f. TXT x92983
f. TXT x92984
f. TXT x92985
f. TXT x92986
f. TXT x92987
f. TXT x92988
f. TXT x92989
f. TXT x92990
f. TXT x92991
ax0. A cy
f. TXT x92993
f. TXT x92994
f. TXT x92995
f. TXT x92996
f. TXT x92997
f. TXT x92998
f. TXT x92999
f. TXT x93000
f. TXT x93001
f. TXT x93002
f. TXT x93003
f. TXT x93004
f. TXT x93005
f. TXT x93006
f. TXT x93007
f. TXT x93008
f. TXT x93009
f. TXT x93010
f. TXT x93011
f. TXT x93012
f. TXT x93013
f. TXT x93014
f. TXT x93015
f. TXT x93016
f. TXT x93017
f. TXT x93018
f. TXT x93019
f. TXT x93020
f. TXT x93021
f. TXT x93022
f. TXT x93023
f. TXT x93024
f. TXT x93025
f. TXT x93026
f. TXT x93027
f. TXT x93028
f. TXT x93029
f. TXT x93030
f. TXT x93031
f. TXT x93032
f. TXT x93033
f. TXT x93034
f. TXT x93035
f. TXT x93036
f. TXT x93037
f. TXT x93038
f. TXT x93039
f. TXT x93040
f. TXT x93041
f. TXT x93042
f. TXT x93043
f. TXT x93044
f. TXT x93045
f. TXT x93046
f. TXT x93047
f. TXT x93048
f. TXT x93049
f. TXT x93050
f. TXT x93051
f. TXT x93052
f. TXT x93053
f. TXT x93054
f. TXT x93055
@ NS 0zb -z
f. TXT x93057
f. TXT x93058
f. TXT x93059
f. TXT x93060
f. TXT x93061
f. TXT x93062
f. TXT x93063
f. TXT x93064
f. TXT x93065
f. TXT x93066
f. TXT x93067
f. TXT x93068
f. TXT x93069
f. TXT x93070
f. TXT x93071
f. TXT x93072
f. TXT x93073
f. TXT x93074
f. TXT x93075
f. TXT x93076
f. TXT x93077
f. TXT x93078
f. TXT x93079
f. TXT x93080
f. TXT x93081
f. TXT x93082
f. TXT x93083
f. TXT x93084
f. TXT x93085
f. TXT x93086
f. TXT x93087
f. TXT x93088
f. TXT x93089
f. TXT x93090
f. TXT x93091
f. TXT x93092
f. TXT x93093
f. TXT x93094
f. TXT x93095
f. TXT x93096
f. TXT x93097
f. TXT x93098
f. TXT x93099
f. TXT x93100
f. TXT x93101
f. TXT x93102
f. TXT x93103
f. TXT x93104
f. TXT x93105
f. TXT x93106
f. TXT x93107
f. TXT x93108
f. TXT x93109
f. TXT x93110
f. TXT x93111
f. TXT x93112
f. TXT x93113
f. TXT x93114
f. TXT x93115
f. TXT x93116
f. TXT x93117
f. TXT x93118
f. TXT x93119
bcb. TXT z* bz
f. TXT x93121
f. TXT x93122
f. TXT x93123
f. TXT x93124
f. TXT x93125
f. TXT x93126
f. TXT x93127
f. TXT x93128
f. TXT x93129
f. TXT x93130
f. TXT x93131
f. TXT x93132
f. TXT x93133
f. TXT x93134
f. TXT x93135
f. TXT x93136
f. TXT x93137
f. TXT x93138
f. TXT x93139
f. TXT x93140
f. TXT x93141
f. TXT x93142
f. TXT x93143
f. TXT x93144
f. TXT x93145
f. TXT x93146
f. TXT x93147
f. TXT x93148
f. TXT x93149
f. TXT x93150
f. TXT x93151
f. TXT x93152
f. TXT x93153
f. TXT x93154
f. TXT x93155
f. TXT x93156
f. TXT x93157
f. TXT x93158
f. TXT x93159
f. TXT x93160
f. TXT x93161
f. TXT x93162
f. TXT x93163
f. TXT x93164
f. TXT x93165
f. TXT x93166
f. TXT x93167
f. TXT x93168
f. TXT x93169
f. TXT x93170
f. TXT x93171
f. TXT x93172
f. TXT x93173
f. TXT x93174
f. TXT x93175
f. TXT x93176
f. TXT x93177
f. TXT x93178
f. TXT x93179
f. TXT x93180
f. TXT x93181
f. TXT x93182
f. TXT x93183
; cyy
f. TXT x93185
f. TXT x93186
f. TXT x93187
f. TXT x93188
f. TXT x93189
f. TXT x93190
f. TXT x93191
f. TXT x93192
f. TXT x93193
f. TXT x93194
f. TXT x93195
f. TXT x93196
f. TXT x93197
f. TXT x93198
f. TXT x93199
f. TXT x93200
f. TXT x93201
f. TXT x93202
f. TXT x93203
f. TXT x93204
f. TXT x93205
f. TXT x93206
f. TXT x93207
f. TXT x93208
f. TXT x93209
f. TXT x93210
f. TXT x93211
f. TXT x93212
f. TXT x93213
f. TXT x93214
f. TXT x93215
f. TXT x93216
f. TXT x93217
f. TXT x93218
f. TXT x93219
f. TXT x93220
f. TXT x93221
f. TXT x93222
f. TXT x93223
f. TXT x93224
f. TXT x93225
f. TXT x93226
f. TXT x93227
f. TXT x93228
f. TXT x93229
f. TXT x93230
f. TXT x93231
f. TXT x93232
f. TXT x93233
f. TXT x93234
f. TXT x93235
f. TXT x93236
f. TXT x93237
f. TXT x93238
f. TXT x93239
f. TXT x93240
f. TXT x93241
f. TXT x93242
f. TXT x93243
f. TXT x93244
f. TXT x93245
f. TXT x93246
f. TXT x93247
 NS --y *z
f. TXT x93249
f. TXT x93250
f. TXT x93251
f. TXT x93252
f. TXT x93253
f. TXT x93254
f. TXT x93255
f. TXT x93256
f. TXT x93257
f. TXT x93258
f. TXT x93259
f. TXT x93260
f. TXT x93261
f. TXT x93262
f. TXT x93263
f. TXT x93264
f. TXT x93265
f. TXT x93266
f. TXT x93267
f. TXT x93268
f. TXT x93269
f. TXT x93270
f. TXT x93271
f. TXT x93272
f. TXT x93273
f. TXT x93274
f. TXT x93275
f. TXT x93276
f. TXT x93277
f. TXT x93278
f. TXT x93279
f. TXT x93280
f. TXT x93281
f. TXT x93282
f. TXT x93283
f. TXT x93284
f. TXT x93285
f. TXT x93286
f. TXT x93287
f. TXT x93288
f. TXT x93289
f. TXT x93290
f. TXT x93291
f. TXT x93292
f. TXT x93293
f. TXT x93294
f. TXT x93295
f. TXT x93296
f. TXT x93297
f. TXT x93298
f. TXT x93299
f. TXT x93300
f. TXT x93301
f. TXT x93302
f. TXT x93303
f. TXT x93304
f. TXT x93305
f. TXT x93306
f. TXT x93307
f. TXT x93308
f. TXT x93309
f. TXT x93310
f. TXT x93311
$TTL 3
f. TXT x93313
f. TXT x93314
f. TXT x93315
f. TXT x93316
f. TXT x93317
f. TXT x93318
f. TXT x93319
f. TXT x93320
f. TXT x93321
f. TXT x93322
f. TXT x93323
f. TXT x93324
f. TXT x93325
f. TXT x93326
f. TXT x93327
f. TXT x93328
f. TXT x93329
f. TXT x93330
f. TXT x93331
f. TXT x93332
f. TXT x93333
f. TXT x93334
f. TXT x93335
f. TXT x93336
f. TXT x93337
f. TXT x93338
f. TXT x93339
f. TXT x93340
f. TXT x93341
f. TXT x93342
f. TXT x93343
f. TXT x93344
f. TXT x93345
f. TXT x93346
f. TXT x93347
f. TXT x93348
f. TXT x93349
f. TXT x93350
f. TXT x93351
f. TXT x93352
f. TXT x93353
f. TXT x93354
f. TXT x93355
f. TXT x93356
f. TXT x93357
f. TXT x93358
f. TXT x93359
f. TXT x93360
f. TXT x93361
f. TXT x93362
f. TXT x93363
f. TXT x93364
f. TXT x93365
f. TXT x93366
f. TXT x93367
f. TXT x93368
f. TXT x93369
f. TXT x93370
f. TXT x93371
f. TXT x93372
f. TXT x93373
f. TXT x93374
f. TXT x93375
; -yy
f. TXT x93377
f. TXT x93378
f. TXT x93379
f. TXT x93380
f. TXT x93381
f. TXT x93382
f. TXT x93383
f. TXT x93384
f. TXT x93385
f. TXT x93386
f. TXT x93387
f. TXT x93388
f. TXT x93389
f. TXT x93390
f. TXT x93391
f. TXT x93392
f. TXT x93393
f. TXT x93394
f. TXT x93395
f. TXT x93396
f. TXT x93397
f. TXT x93398
f. TXT x93399
f. TXT x93400
f. TXT x93401
f. TXT x93402
f. TXT x93403
f. TXT x93404
f. TXT x93405
f. TXT x93406
f. TXT x93407
f. TXT x93408
f. TXT x93409
f. TXT x93410
f. TXT x93411
f. TXT x93412
f. TXT x93413
f. TXT x93414
f. TXT x93415
f. TXT x93416
f. TXT x93417
f. TXT x93418
f. TXT x93419
f. TXT x93420
f. TXT x93421
f. TXT x93422
f. TXT x93423
f. TXT x93424
f. TXT x93425
f. TXT x93426
f. TXT x93427
f. TXT x93428
f. TXT x93429
f. TXT x93430
f. TXT x93431
f. TXT x93432
f. TXT x93433
f. TXT x93434
f. TXT x93435
f. TXT x93436
f. TXT x93437
f. TXT x93438
f. TXT x93439
0y0 A ya* *z y*0b
f. TXT x93441
f. TXT x93442
f. TXT x93443
f. TXT x93444
f. TXT x93445
f. TXT x93446
f. TXT x93447
f. TXT x93448
f. TXT x93449
f. TXT x93450
f. TXT x93451
f. TXT x93452
f. TXT x93453
f. TXT x93454
f. TXT x93455
f. TXT x93456
f. TXT x93457
f. TXT x93458
f. TXT x93459
f. TXT x93460
f. TXT x93461
f. TXT x93462
f. TXT x93463
f. TXT x93464
f. TXT x93465
f. TXT x93466
f. TXT x93467
f. TXT x93468
f. TXT x93469
f. TXT x93470
f. TXT x93471
f. TXT x93472
f. TXT x93473
f. TXT x93474
f. TXT x93475
f. TXT x93476
f. TXT x93477
f. TXT x93478
f. TXT x93479
f. TXT x93480
f. TXT x93481
f. TXT x93482
f. TXT x93483
f. TXT x93484
f. TXT x93485
f. TXT x93486
f. TXT x93487
f. TXT x93488
f. TXT x93489
f. TXT x93490
f. TXT x93491
f. TXT x93492
f. TXT x93493
f. TXT x93494
f. TXT x93495
f. TXT x93496
f. TXT x93497
f. TXT x93498
f. TXT x93499
f. TXT x93500
f. TXT x93501
f. TXT x93502
f. TXT x93503
@ A -abx
f. TXT x93505
f. TXT x93506
f. TXT x93507
f. TXT x93508
f. TXT x93509
f. TXT x93510
f. TXT x93511
f. TXT x93512
f. TXT x93513
f. TXT x93514
f. TXT x93515
f. TXT x93516
f. TXT x93517
f. TXT x93518
f. TXT x93519
f. TXT x93520
f. TXT x93521
f. TXT x93522
f. TXT x93523
f. TXT x93524
f. TXT x93525
f. TXT x93526
f. TXT x93527
f. TXT x93528
f. TXT x93529
f. TXT x93530
f. TXT x93531
f. TXT x93532
f. TXT x93533
f. TXT x93534
f. TXT x93535
f. TXT x93536
f. TXT x93537
f. TXT x93538
f. TXT x93539
f. TXT x93540
f. TXT x93541
f. TXT x93542
f. TXT x93543
f. TXT x93544
f. TXT x93545
f. TXT x93546
f. TXT x93547
f. TXT x93548
f. TXT x93549
f. TXT x93550
f. TXT x93551
f. TXT x93552
f. TXT x93553
f. TXT x93554
f. TXT x93555
f. TXT x93556
f. TXT x93557
f. TXT x93558
f. TXT x93559
f. TXT x93560
f. TXT x93561
f. TXT x93562
f. TXT x93563
f. TXT x93564
f. TXT x93565
f. TXT x93566
f. TXT x93567
 TXT x axa 0bza
f. TXT x93569
f. TXT x93570
f. TXT x93571
f. TXT x93572
f. TXT x93573
f. TXT x93574
f. TXT x93575
f. TXT x93576
f. TXT x93577
f. TXT x93578
f. TXT x93579
f. TXT x93580
f. TXT x93581
f. TXT x93582
f. TXT x93583
f. TXT x93584
f. TXT x93585
f. TXT x93586
f. TXT x93587
f. TXT x93588
f. TXT x93589
f. TXT x93590
f. TXT x93591
f. TXT x93592
f. TXT x93593
f. TXT x93594
f. TXT x93595
f. TXT x93596
f. TXT x93597
f. TXT x93598
f. TXT x93599
f. TXT x93600
f. TXT x93601
f. TXT x93602
f. TXT x93603
f. TXT x93604
f. TXT x93605
f. TXT x93606
f. TXT x93607
f. TXT x93608
f. TXT x93609
f. TXT x93610
f. TXT x93611
f. TXT x93612
f. TXT x93613
f. TXT x93614
f. TXT x93615
f. TXT x93616
f. TXT x93617
f. TXT x93618
f. TXT x93619
f. TXT x93620
f. TXT x93621
f. TXT x93622
f. TXT x93623
f. TXT x93624
f. TXT x93625
f. TXT x93626
f. TXT x93627
f. TXT x93628
f. TXT x93629
f. TXT x93630
f. TXT x93631

f. TXT x93633
f. TXT x93634
f. TXT x93635
f. TXT x93636
f. TXT x93637
f. TXT x93638
f. TXT x93639
f. TXT x93640
f. TXT x93641
f. TXT x93642
f. TXT x93643
f. TXT x93644
f. TXT x93645
f. TXT x93646
f. TXT x93647
f. TXT x93648
f. TXT x93649
f. TXT x93650
f. TXT x93651
f. TXT x93652
f. TXT x93653
f. TXT x93654
f. TXT x93655
f. TXT x93656
f. TXT x93657
f. TXT x93658
f. TXT x93659
f. TXT x93660
f. TXT x93661
f. TXT x93662
f. TXT x93663
f. TXT x93664
f. TXT x93665
f. TXT x93666
f. TXT x93667
f. TXT x93668
f. TXT x93669
f. TXT x93670
f. TXT x93671
f. TXT x93672
f. TXT x93673
f. TXT x93674
f. TXT x93675
f. TXT x93676
f. TXT x93677
f. TXT x93678
f. TXT x93679
f. TXT x93680
f. TXT x93681
f. TXT x93682
f. TXT x93683
f. TXT x93684
f. TXT x93685
f. TXT x93686
f. TXT x93687
f. TXT x93688
f. TXT x93689
f. TXT x93690
f. TXT x93691
f. TXT x93692
f. TXT x93693
f. TXT x93694
f. TXT x93695
ccy TXT cz xa cc
f. TXT x93697
f. TXT x93698
f. TXT x93699
f. TXT x93700
f. TXT x93701
f. TXT x93702
f. TXT x93703
f. TXT x93704
f. TXT x93705
f. TXT x93706
f. TXT x93707
f. TXT x93708
f. TXT x93709
f. TXT x93710
f. TXT x93711
f. TXT x93712
f. TXT x93713
f. TXT x93714
f. TXT x93715
f. TXT x93716
f. TXT x93717
f. TXT x93718
f. TXT x93719
f. TXT x93720
f. TXT x93721
f. TXT x93722
f. TXT x93723
f. TXT x93724
f. TXT x93725
f. TXT x93726
f. TXT x93727
f. TXT x93728
f. TXT x93729
f. TXT x93730
f. TXT x93731
f. TXT x93732
f. TXT x93733
f. TXT x93734
f. TXT x93735
f. TXT x93736
f. TXT x93737
f. TXT x93738
f. TXT x93739
f. TXT x93740
f. TXT x93741
f. TXT x93742
f. TXT x93743
f. TXT x93744
f. TXT x93745
f. TXT x93746
f. TXT x93747
f. TXT x93748
f. TXT x93749
f. TXT x93750
f. TXT x93751
f. TXT x93752
f. TXT x93753
f. TXT x93754
f. TXT x93755
f. TXT x93756
f. TXT x93757
f. TXT x93758
f. TXT x93759
 NS *-z a0
f. TXT x93761
f. TXT x93762
f. TXT x93763
f. TXT x93764
f. TXT x93765
f. TXT x93766
f. TXT x93767
f. TXT x93768
f. TXT x93769
f. TXT x93770
f. TXT x93771
f. TXT x93772
f. TXT x93773
f. TXT x93774
f. TXT x93775
f. TXT x93776
f. TXT x93777
f. TXT x93778
f. TXT x93779
f. TXT x93780
f. TXT x93781
f. TXT x93782
f. TXT x93783
f. TXT x93784
f. TXT x93785
f. TXT x93786
f. TXT x93787
f. TXT x93788
f. TXT x93789
f. TXT x93790
f. TXT x93791
f. TXT x93792
f. TXT x93793
f. TXT x93794
f. TXT x93795
f. TXT x93796
f. TXT x93797
f. TXT x93798
f. TXT x93799
f. TXT x93800
f. TXT x93801
f. TXT x93802
f. TXT x93803
f. TXT x93804
f. TXT x93805
f. TXT x93806
f. TXT x93807
f. TXT x93808
f. TXT x93809
f. TXT x93810
f. TXT x93811
f. TXT x93812
f. TXT x93813
f. TXT x93814
f. TXT x93815
f. TXT x93816
f. TXT x93817
f. TXT x93818
f. TXT x93819
f. TXT x93820
f. TXT x93821
f. TXT x93822
f. TXT x93823
a.0bb. A *zxx azbc cxz0
f. TXT x93825
f. TXT x93826
f. TXT x93827
f. TXT x93828
f. TXT x93829
f. TXT x93830
f. TXT x93831
f. TXT x93832
f. TXT x93833
f. TXT x93834
f. TXT x93835
f. TXT x93836
f. TXT x93837
f. TXT x93838
f. TXT x93839
f. TXT x93840
f. TXT x93841
f. TXT x93842
f. TXT x93843
f. TXT x93844
f. TXT x93845
f. TXT x93846
f. TXT x93847
f. TXT x93848
f. TXT x93849
f. TXT x93850
f. TXT x93851
f. TXT x93852
f. TXT x93853
f. TXT x93854
f. TXT x93855
f. TXT x93856
f. TXT x93857
f. TXT x93858
f. TXT x93859
f. TXT x93860
f. TXT x93861
f. TXT x93862
f. TXT x93863
f. TXT x93864
f. TXT x93865
f. TXT x93866
f. TXT x93867
f. TXT x93868
f. TXT x93869
f. TXT x93870
f. TXT x93871
f. TXT x93872
f. TXT x93873
f. TXT x93874
f. TXT x93875
f. TXT x93876
f. TXT x93877
f. TXT x93878
f. TXT x93879
f. TXT x93880
f. TXT x93881
f. TXT x93882
f. TXT x93883
f. TXT x93884
f. TXT x93885
f. TXT x93886
f. TXT x93887
$ORIGIN a.
f. TXT x93889
f. TXT x93890
f. TXT x93891
f. TXT x93892
f. TXT x93893
f. TXT x93894
f. TXT x93895
f. TXT x93896
f. TXT x93897
f. TXT x93898
f. TXT x93899
f. TXT x93900
f. TXT x93901
f. TXT x93902
f. TXT x93903
f. TXT x93904
f. TXT x93905
f. TXT x93906
f. TXT x93907
f. TXT x93908
f. TXT x93909
f. TXT x93910
f. TXT x93911
f. TXT x93912
f. TXT x93913
f. TXT x93914
f. TXT x93915
f. TXT x93916
f. TXT x93917
f. TXT x93918
f. TXT x93919
f. TXT x93920
f. TXT x93921
f. TXT x93922
f. TXT x93923
f. TXT x93924
f. TXT x93925
f. TXT x93926
f. TXT x93927
f. TXT x93928
f. TXT x93929
f. TXT x93930
f. TXT x93931
f. TXT x93932
f. TXT x93933
f. TXT x93934
f. TXT x93935
f. TXT x93936
f. TXT x93937
f. TXT x93938
f. TXT x93939
f. TXT x93940
f. TXT x93941
f. TXT x93942
f. TXT x93943
f. TXT x93944
f. TXT x93945
f. TXT x93946
f. TXT x93947
f. TXT x93948
f. TXT x93949
f. TXT x93950
f. TXT x93951
z--.xby. TXT y * ay*x
f. TXT x93953
f. TXT x93954
f. TXT x93955
f. TXT x93956
f. TXT x93957
f. TXT x93958
f. TXT x93959
f. TXT x93960
f. TXT x93961
f. TXT x93962
f. TXT x93963
f. TXT x93964
f. TXT x93965
f. TXT x93966
f. TXT x93967
f. TXT x93968
f. TXT x93969
f. TXT x93970
f. TXT x93971
f. TXT x93972
f. TXT x93973
f. TXT x93974
f. TXT x93975
f. TXT x93976
f. TXT x93977
f. TXT x93978
f. TXT x93979
f. TXT x93980
f. TXT x93981
f. TXT x93982
f. TXT x93983
f. TXT x93984
f. TXT x93985
f. TXT x93986
f. TXT x93987
f. TXT x93988
f. TXT x93989
f. TXT x93990
f. TXT x93991
f. TXT x93992
f. TXT x93993
f. TXT x93994
f. TXT x93995
f. TXT x93996
f. TXT x93997
f. TXT x93998
f. TXT x93999
f. TXT x94000
f. TXT x94001
f. TXT x94002
f. TXT x94003
f. TXT x94004
f. TXT x94005
f. TXT x94006
f. TXT x94007
f. TXT x94008
f. TXT x94009
f. TXT x94010
f. TXT x94011
f. TXT x94012
f. TXT x94013
f. TXT x94014
f. TXT x94015
 NS yc-0 * bx*
f. TXT x94017
f. TXT x94018
f. TXT x94019
f. TXT x94020
f. TXT x94021
f. TXT x94022
f. TXT x94023
f. TXT x94024
f. TXT x94025
f. TXT x94026
f. TXT x94027
f. TXT x94028
f. TXT x94029
f. TXT x94030
f. TXT x94031
f. TXT x94032
f. TXT x94033
f. TXT x94034
f. TXT x94035
f. TXT x94036
f. TXT x94037
f. TXT x94038
f. TXT x94039
f. TXT x94040
f. TXT x94041
f. TXT x94042
f. TXT x94043
f. TXT x94044
f. TXT x94045
f. TXT x94046
f. TXT x94047
f. TXT x94048
f. TXT x94049
f. TXT x94050
f. TXT x94051
f. TXT x94052
f. TXT x94053
f. TXT x94054
f. TXT x94055
f. TXT x94056
f. TXT x94057
f. TXT x94058
f. TXT x94059
f. TXT x94060
f. TXT x94061
f. TXT x94062
f. TXT x94063
f. TXT x94064
f. TXT x94065
f. TXT x94066
f. TXT x94067
f. TXT x94068
f. TXT x94069
f. TXT x94070
f. TXT x94071
f. TXT x94072
f. TXT x94073
f. TXT x94074
f. TXT x94075
f. TXT x94076
f. TXT x94077
f. TXT x94078
f. TXT x94079
-b-z NS -a
f. TXT x94081
f. TXT x94082
f. TXT x94083
f. TXT x94084
f. TXT x94085
f. TXT x94086
f. TXT x94087
f. TXT x94088
f. TXT x94089
f. TXT x94090
f. TXT x94091
f. TXT x94092
f. TXT x94093
f. TXT x94094
f. TXT x94095
f. TXT x94096
f. TXT x94097
f. TXT x94098
f. TXT x94099
f. TXT x94100
f. TXT x94101
f. TXT x94102
f. TXT x94103
f. TXT x94104
f. TXT x94105
f. TXT x94106
f. TXT x94107
f. TXT x94108
f. TXT x94109
f. TXT x94110
f. TXT x94111
f. TXT x94112
f. TXT x94113
f. TXT x94114
f. TXT x94115
f. TXT x94116
f. TXT x94117
f. TXT x94118
f. TXT x94119
f. TXT x94120
f. TXT x94121
f. TXT x94122
f. TXT x94123
f. TXT x94124
f. TXT x94125
f. TXT x94126
f. TXT x94127
f. TXT x94128
f. TXT x94129
f. TXT x94130
f. TXT x94131
f. TXT x94132
f. TXT x94133
f. TXT x94134
f. TXT x94135
f. TXT x94136
f. TXT x94137
f. TXT x94138
f. TXT x94139
f. TXT x94140
f. TXT x94141
f. TXT x94142
f. TXT x94143
$ORIGIN b.
f. TXT x94145
f. TXT x94146
f. TXT x94147
f. TXT x94148
f. TXT x94149
f. TXT x94150
f. TXT x94151
f. TXT x94152
f. TXT x94153
f. TXT x94154
f. TXT x94155
f. TXT x94156
f. TXT x94157
f. TXT x94158
f. TXT x94159
f. TXT x94160
f. TXT x94161
f. TXT x94162
f. TXT x94163
f. TXT x94164
f. TXT x94165
f. TXT x94166
f. TXT x94167
f. TXT x94168
f. TXT x94169
f. TXT x94170
f. TXT x94171
f. TXT x94172
f. TXT x94173
f. TXT x94174
f. TXT x94175
f. TXT x94176
f. TXT x94177
f. TXT x94178
f. TXT x94179
f. TXT x94180
f. TXT x94181
f. TXT x94182
f. TXT x94183
f. TXT x94184
f. TXT x94185
f. TXT x94186
f. TXT x94187
f. TXT x94188
f. TXT x94189
f. TXT x94190
f. TXT x94191
f. TXT x94192
f. TXT x94193
f. TXT x94194
f. TXT x94195
f. TXT x94196
f. TXT x94197
f. TXT x94198
f. TXT x94199
f. TXT x94200
f. TXT x94201
f. TXT x94202
f. TXT x94203
f. TXT x94204
f. TXT x94205
f. TXT x94206
f. TXT x94207

f. TXT x94209
f. TXT x94210
f. TXT x94211
f. TXT x94212
f. TXT x94213
f. TXT x94214
f. TXT x94215
f. TXT x94216
f. TXT x94217
f. TXT x94218
f. TXT x94219
f. TXT x94220
f. TXT x94221
f. TXT x94222
f. TXT x94223
f. TXT x94224
f. TXT x94225
f. TXT x94226
f. TXT x94227
f. TXT x94228
f. TXT x94229
f. TXT x94230
f. TXT x94231
f. TXT x94232
f. TXT x94233
f. TXT x94234
f. TXT x94235
f. TXT x94236
f. TXT x94237
f. TXT x94238
f. TXT x94239
f. TXT x94240
f. TXT x94241
f. TXT x94242
f. TXT x94243
f. TXT x94244
f. TXT x94245
f. TXT x94246
f. TXT x94247
f. TXT x94248
f. TXT x94249
f. TXT x94250
f. TXT x94251
f. TXT x94252
f. TXT x94253
f. TXT x94254
f. TXT x94255
f. TXT x94256
f. TXT x94257
f. TXT x94258
f. TXT x94259
f. TXT x94260
f. TXT x94261
f. TXT x94262
f. TXT x94263
f. TXT x94264
f. TXT x94265
f. TXT x94266
f. TXT x94267
f. TXT x94268
f. TXT x94269
f. TXT x94270
f. TXT x94271
aazc TXT aab
f. TXT x94273
f. TXT x94274
f. TXT x94275
f. TXT x94276
f. TXT x94277
f. TXT x94278
f. TXT x94279
f. TXT x94280
f. TXT x94281
f. TXT x94282
f. TXT x94283
f. TXT x94284
f. TXT x94285
f. TXT x94286
f. TXT x94287
f. TXT x94288
f. TXT x94289
f. TXT x94290
f. TXT x94291
f. TXT x94292
f. TXT x94293
f. TXT x94294
f. TXT x94295
f. TXT x94296
f. TXT x94297
f. TXT x94298
f. TXT x94299
f. TXT x94300
f. TXT x94301
f. TXT x94302
f. TXT x94303
f. TXT x94304
f. TXT x94305
f. TXT x94306
f. TXT x94307
f. TXT x94308
f. TXT x94309
f. TXT x94310
f. TXT x94311
f. TXT x94312
f. TXT x94313
f. TXT x94314
f. TXT x94315
f. TXT x94316
f. TXT x94317
f. TXT x94318
f. TXT x94319
f. TXT x94320
f. TXT x94321
f. TXT x94322
f. TXT x94323
f. TXT x94324
f. TXT x94325
f. TXT x94326
f. TXT x94327
f. TXT x94328
f. TXT x94329
f. TXT x94330
f. TXT x94331
f. TXT x94332
f. TXT x94333
f. TXT x94334
f. TXT x94335
aa0 A c
f. TXT x94337
f. TXT x94338
f. TXT x94339
f. TXT x94340
f. TXT x94341
f. TXT x94342
f. TXT x94343
f. TXT x94344
f. TXT x94345
f. TXT x94346
f. TXT x94347
f. TXT x94348
f. TXT x94349
f. TXT x94350
f. TXT x94351
f. TXT x94352
f. TXT x94353
f. TXT x94354
f. TXT x94355
f. TXT x94356
f. TXT x94357
f. TXT x94358
f. TXT x94359
f. TXT x94360
f. TXT x94361
f. TXT x94362
f. TXT x94363
f. TXT x94364
f. TXT x94365
f. TXT x94366
f. TXT x94367
f. TXT x94368
f. TXT x94369
f. TXT x94370
f. TXT x94371
f. TXT x94372
f. TXT x94373
f. TXT x94374
f. TXT x94375
f. TXT x94376
f. TXT x94377
f. TXT x94378
f. TXT x94379
f. TXT x94380
f. TXT x94381
f. TXT x94382
f. TXT x94383
f. TXT x94384
f. TXT x94385
f. TXT x94386
f. TXT x94387
f. TXT x94388
f. TXT x94389
f. TXT x94390
f. TXT x94391
f. TXT x94392
f. TXT x94393
f. TXT x94394
f. TXT x94395
f. TXT x94396
f. TXT x94397
f. TXT x94398
f. TXT x94399
a. A c *c -xz
f. TXT x94401
f. TXT x94402
f. TXT x94403
f. TXT x94404
f. TXT x94405
f. TXT x94406
f. TXT x94407
f. TXT x94408
f. TXT x94409
f. TXT x94410
f. TXT x94411
f. TXT x94412
f. TXT x94413
f. TXT x94414
f. TXT x94415
f. TXT x94416
f. TXT x94417
f. TXT x94418
f. TXT x94419
f. TXT x94420
f. TXT x94421
f. TXT x94422
f. TXT x94423
f. TXT x94424
f. TXT x94425
f. TXT x94426
f. TXT x94427
f. TXT x94428
f. TXT x94429
f. TXT x94430
f. TXT x94431
f. TXT x94432
f. TXT x94433
f. TXT x94434
f. TXT x94435
f. TXT x94436
f. TXT x94437
f. TXT x94438
f. TXT x94439
f. TXT x94440
f. TXT x94441
f. TXT x94442
f. TXT x94443
f. TXT x94444
f. TXT x94445
f. TXT x94446
f. TXT x94447
f. TXT x94448
f. TXT x94449
f. TXT x94450
f. TXT x94451
f. TXT x94452
f. TXT x94453
f. TXT x94454
f. TXT x94455
f. TXT x94456
f. TXT x94457
f. TXT x94458
f. TXT x94459
f. TXT x94460
f. TXT x94461
f. TXT x94462
f. TXT x94463
y0 TXT zxcz xcbb
f. TXT x94465
f. TXT x94466
f. TXT x94467
f. TXT x94468
f. TXT x94469
f. TXT x94470
f. TXT x94471
f. TXT x94472
f. TXT x94473
f. TXT x94474
f. TXT x94475
f. TXT x94476
f. TXT x94477
f. TXT x94478
f. TXT x94479
f. TXT x94480
f. TXT x94481
f. TXT x94482
f. TXT x94483
f. TXT x94484
f. TXT x94485
f. TXT x94486
f. TXT x94487
f. TXT x94488
f. TXT x94489
f. TXT x94490
f. TXT x94491
f. TXT x94492
f. TXT x94493
f. TXT x94494
f. TXT x94495
f. TXT x94496
f. TXT x94497
f. TXT x94498
f. TXT x94499
f. TXT x94500
f. TXT x94501
f. TXT x94502
f. TXT x94503
f. TXT x94504
f. TXT x94505
f. TXT x94506
f. TXT x94507
f. TXT x94508
f. TXT x94509
f. TXT x94510
f. TXT x94511
f. TXT x94512
f. TXT x94513
f. TXT x94514
f. TXT x94515
f. TXT x94516
f. TXT x94517
f. TXT x94518
f. TXT x94519
f. TXT x94520
f. TXT x94521
f. TXT x94522
f. TXT x94523
f. TXT x94524
f. TXT x94525
f. TXT x94526
f. TXT x94527

f. TXT x94529
f. TXT x94530
f. TXT x94531
f. TXT x94532
f. TXT x94533
f. TXT x94534
f. TXT x94535
f. TXT x94536
f. TXT x94537
f. TXT x94538
f. TXT x94539
f. TXT x94540
f. TXT x94541
f. TXT x94542
f. TXT x94543
f. TXT x94544
f. TXT x94545
f. TXT x94546
f. TXT x94547
f. TXT x94548
f. TXT x94549
f. TXT x94550
f. TXT x94551
f. TXT x94552
f. TXT x94553
f. TXT x94554
f. TXT x94555
f. TXT x94556
f. TXT x94557
f. TXT x94558
f. TXT x94559
f. TXT x94560
f. TXT x94561
f. TXT x94562
f. TXT x94563
f. TXT x94564
f. TXT x94565
f. TXT x94566
f. TXT x94567
f. TXT x94568
f. TXT x94569
f. TXT x94570
f. TXT x94571
f. TXT x94572
f. TXT x94573
f. TXT x94574
f. TXT x94575
f. TXT x94576
f. TXT x94577
f. TXT x94578
f. TXT x94579
f. TXT x94580
f. TXT x94581
f. TXT x94582
f. TXT x94583
f. TXT x94584
f. TXT x94585
f. TXT x94586
f. TXT x94587
f. TXT x94588
f. TXT x94589
f. TXT x94590
f. TXT x94591
 TXT 0 baz aa
f. TXT x94593
f. TXT x94594
f. TXT x94595
f. TXT x94596
f. TXT x94597
f. TXT x94598
f. TXT x94599
f. TXT x94600
f. TXT x94601
f. TXT x94602
f. TXT x94603
f. TXT x94604
f. TXT x94605
f. TXT x94606
f. TXT x94607
f. TXT x94608
f. TXT x94609
f. TXT x94610
f. TXT x94611
f. TXT x94612
f. TXT x94613
f. TXT x94614
f. TXT x94615
f. TXT x94616
f. TXT x94617
f. TXT x94618
f. TXT x94619
f. TXT x94620
f. TXT x94621
f. TXT x94622
f. TXT x94623
f. TXT x94624
f. TXT x94625
f. TXT x94626
f. TXT x94627
f. TXT x94628
f. TXT x94629
f. TXT x94630
f. TXT x94631
f. TXT x94632
f. TXT x94633
f. TXT x94634
f. TXT x94635
f. TXT x94636
f. TXT x94637
f. TXT x94638
f. TXT x94639
f. TXT x94640
f. TXT x94641
f. TXT x94642
f. TXT x94643
f. TXT x94644
f. TXT x94645
f. TXT x94646
f. TXT x94647
f. TXT x94648
f. TXT x94649
f. TXT x94650
f. TXT x94651
f. TXT x94652
f. TXT x94653
f. TXT x94654
f. TXT x94655
@ NS 0by z*b c*
f. TXT x94657
f. TXT x94658
f. TXT x94659
f. TXT x94660
f. TXT x94661
f. TXT x94662
f. TXT x94663
f. TXT x94664
f. TXT x94665
f. TXT x94666
f. TXT x94667
f. TXT x94668
f. TXT x94669
f. TXT x94670
f. TXT x94671
f. TXT x94672
f. TXT x94673
f. TXT x94674
f. TXT x94675
f. TXT x94676
f. TXT x94677
f. TXT x94678
f. TXT x94679
f. TXT x94680
f. TXT x94681
f. TXT x94682
f. TXT x94683
f. TXT x94684
f. TXT x94685
f. TXT x94686
f. TXT x94687
f. TXT x94688
f. TXT x94689
f. TXT x94690
f. TXT x94691
f. TXT x94692
f. TXT x94693
f. TXT x94694
f. TXT x94695
f. TXT x94696
f. TXT x94697
f. TXT x94698
f. TXT x94699
f. TXT x94700
f. TXT x94701
f. TXT x94702
f. TXT x94703
f. TXT x94704
f. TXT x94705
f. TXT x94706
f. TXT x94707
f. TXT x94708
f. TXT x94709
f. TXT x94710
f. TXT x94711
f. TXT x94712
f. TXT x94713
f. TXT x94714
f. TXT x94715
f. TXT x94716
f. TXT x94717
f. TXT x94718
f. TXT x94719
@ NS -cc0
f. TXT x94721
f. TXT x94722
f. TXT x94723
f. TXT x94724
f. TXT x94725
f. TXT x94726
f. TXT x94727
f. TXT x94728
f. TXT x94729
f. TXT x94730
f. TXT x94731
f. TXT x94732
f. TXT x94733
f. TXT x94734
f. TXT x94735
f. TXT x94736
f. TXT x94737
f. TXT x94738
f. TXT x94739
f. TXT x94740
f. TXT x94741
f. TXT x94742
f. TXT x94743
f. TXT x94744
f. TXT x94745
f. TXT x94746
f. TXT x94747
f. TXT x94748
f. TXT x94749
f. TXT x94750
f. TXT x94751
f. TXT x94752
f. TXT x94753
f. TXT x94754
f. TXT x94755
f. TXT x94756
f. TXT x94757
f. TXT x94758
f. TXT x94759
f. TXT x94760
f. TXT x94761
f. TXT x94762
f. TXT x94763
f. TXT x94764
f. TXT x94765
f. TXT x94766
f. TXT x94767
f. TXT x94768
f. TXT x94769
f. TXT x94770
f. TXT x94771
f. TXT x94772
f. TXT x94773
f. TXT x94774
f. TXT x94775
f. TXT x94776
f. TXT x94777
f. TXT x94778
f. TXT x94779
f. TXT x94780
f. TXT x94781
f. TXT x94782
f. TXT x94783
; bx0
f. TXT x94785
f. TXT x94786
f. TXT x94787
f. TXT x94788
f. TXT x94789
f. TXT x94790
f. TXT x94791
f. TXT x94792
f. TXT x94793
f. TXT x94794
f. TXT x94795
f. TXT x94796
f. TXT x94797
f. TXT x94798
f. TXT x94799
f. TXT x94800
f. TXT x94801
f. TXT x94802
f. TXT x94803
f. TXT x94804
f. TXT x94805
f. TXT x94806
f. TXT x94807
f. TXT x94808
f. TXT x94809
f. TXT x94810
f. TXT x94811
f. TXT x94812
f. TXT x94813
f. TXT x94814
f. TXT x94815
f. TXT x94816
f. TXT x94817
f. TXT x94818
f. TXT x94819
f. TXT x94820
f. TXT x94821
f. TXT x94822
f. TXT x94823
f. TXT x94824
f. TXT x94825
f. TXT x94826
f. TXT x94827
f. TXT x94828
f. TXT x94829
f. TXT x94830
f. TXT x94831
f. TXT x94832
f. TXT x94833
f. TXT x94834
f. TXT x94835
f. TXT x94836
f. TXT x94837
f. TXT x94838
f. TXT x94839
f. TXT x94840
f. TXT x94841
f. TXT x94842
f. TXT x94843
f. TXT x94844
f. TXT x94845
f. TXT x94846
f. TXT x94847
@ NS 0c ** b*y
f. TXT x94849
f. TXT x94850
f. TXT x94851
f. TXT x94852
f. TXT x94853
f. TXT x94854
f. TXT x94855
f. TXT x94856
f. TXT x94857
f. TXT x94858
f. TXT x94859
f. TXT x94860
f. TXT x94861
f. TXT x94862
f. TXT x94863
f. TXT x94864
f. TXT x94865
f. TXT x94866
f. TXT x94867
f. TXT x94868
f. TXT x94869
f. TXT x94870
f. TXT x94871
f. TXT x94872
f. TXT x94873
f. TXT x94874
f. TXT x94875
f. TXT x94876
f. TXT x94877
f. TXT x94878
f. TXT x94879
f. TXT x94880
f. TXT x94881
f. TXT x94882
f. TXT x94883
f. TXT x94884
f. TXT x94885
f. TXT x94886
f. TXT x94887
f. TXT x94888
f. TXT x94889
f. TXT x94890
f. TXT x94891
f. TXT x94892
f. TXT x94893
f. TXT x94894
f. TXT x94895
f. TXT x94896
f. TXT x94897
f. TXT x94898
f. TXT x94899
f. TXT x94900
f. TXT x94901
f. TXT x94902
f. TXT x94903
f. TXT x94904
f. TXT x94905
f. TXT x94906
f. TXT x94907
f. TXT x94908
f. TXT x94909
f. TXT x94910
f. TXT x94911
-xzx TXT z* aa*-
f. TXT x94913
f. TXT x94914
f. TXT x94915
f. TXT x94916
f. TXT x94917
f. TXT x94918
f. TXT x94919
f. TXT x94920
f. TXT x94921
f. TXT x94922
f. TXT x94923
f. TXT x94924
f. TXT x94925
f. TXT x94926
f. TXT x94927
f. TXT x94928
f. TXT x94929
f. TXT x94930
f. TXT x94931
f. TXT x94932
f. TXT x94933
f. TXT x94934
f. TXT x94935
f. TXT x94936
f. TXT x94937
f. TXT x94938
f. TXT x94939
f. TXT x94940
f. TXT x94941
f. TXT x94942
f. TXT x94943
f. TXT x94944
f. TXT x94945
f. TXT x94946
f. TXT x94947
f. TXT x94948
f. TXT x94949
f. TXT x94950
f. TXT x94951
f. TXT x94952
f. TXT x94953
f. TXT x94954
f. TXT x94955
f. TXT x94956
f. TXT x94957
f. TXT x94958
f. TXT x94959
f. TXT x94960
f. TXT x94961
f. TXT x94962
f. TXT x94963
f. TXT x94964
f. TXT x94965
f. TXT x94966
f. TXT x94967
f. TXT x94968
f. TXT x94969
f. TXT x94970
f. TXT x94971
f. TXT x94972
f. TXT x94973
f. TXT x94974
f. TXT x94975
x*yc A z *0x zy*
f. TXT x94977
f. TXT x94978
f. TXT x94979
f. TXT x94980
f. TXT x94981
f. TXT x94982
f. TXT x94983
f. TXT x94984
f. TXT x94985
f. TXT x94986
f. TXT x94987
f. TXT x94988
f. TXT x94989
f. TXT x94990
f. TXT x94991
f. TXT x94992
f. TXT x94993
f. TXT x94994
f. TXT x94995
f. TXT x94996
f. TXT x94997
f. TXT x94998
f. TXT x94999
f. TXT x95000
f. TXT x95001
f. TXT x95002
f. TXT x95003
f. TXT x95004
f. TXT x95005
f. TXT x95006
f. TXT x95007
f. TXT x95008
f. TXT x95009
f. TXT x95010
f. TXT x95011
f. TXT x95012
f. TXT x95013
f. TXT x95014
f. TXT x95015
f. TXT x95016
f. TXT x95017
f. TXT x95018
f. TXT x95019
f. TXT x95020
f. TXT x95021
f. TXT x95022
f. TXT x95023
f. TXT x95024
f. TXT x95025
f. TXT x95026
f. TXT x95027
f. TXT x95028
f. TXT x95029
f. TXT x95030
f. TXT x95031
f. TXT x95032
f. TXT x95033
f. TXT x95034
f. TXT x95035
f. TXT x95036
f. TXT x95037
f. TXT x95038
f. TXT x95039
z. A zc
f. TXT x95041
f. TXT x95042
f. TXT x95043
f. TXT x95044
f. TXT x95045
f. TXT x95046
f. TXT x95047
f. TXT x95048
f. TXT x95049
f. TXT x95050
f. TXT x95051
f. TXT x95052
f. TXT x95053
f. TXT x95054
f. TXT x95055
f. TXT x95056
f. TXT x95057
f. TXT x95058
f. TXT x95059
f. TXT x95060
f. TXT x95061
f. TXT x95062
f. TXT x95063
f. TXT x95064
f. TXT x95065
f. TXT x95066
f. TXT x95067
f. TXT x95068
f. TXT x95069
f. TXT x95070
f. TXT x95071
f. TXT x95072
f. TXT x95073
f. TXT x95074
f. TXT x95075
f. TXT x95076
f. TXT x95077
f. TXT x95078
f. TXT x95079
f. TXT x95080
f. TXT x95081
f. TXT x95082
f. TXT x95083
f. TXT x95084
f. TXT x95085
f. TXT x95086
f. TXT x95087
f. TXT x95088
f. TXT x95089
f. TXT x95090
f. TXT x95091
f. TXT x95092
f. TXT x95093
f. TXT x95094
f. TXT x95095
f. TXT x95096
f. TXT x95097
f. TXT x95098
f. TXT x95099
f. TXT x95100
f. TXT x95101
f. TXT x95102
f. TXT x95103
@ A *
f. TXT x95105
f. TXT x95106
f. TXT x95107
f. TXT x95108
f. TXT x95109
f. TXT x95110
f. TXT x95111
f. TXT x95112
f. TXT x95113
f. TXT x95114
f. TXT x95115
f. TXT x95116
f. TXT x95117
f. TXT x95118
f. TXT x95119
f. TXT x95120
f. TXT x95121
f. TXT x95122
f. TXT x95123
f. TXT x95124
f. TXT x95125
f. TXT x95126
f. TXT x95127
f. TXT x95128
f. TXT x95129
f. TXT x95130
f. TXT x95131
f. TXT x95132
f. TXT x95133
f. TXT x95134
f. TXT x95135
f. TXT x95136
f. TXT x95137
f. TXT x95138
f. TXT x95139
f. TXT x95140
f. TXT x95141
f. TXT x95142
f. TXT x95143
f. TXT x95144
f. TXT x95145
f. TXT x95146
f. TXT x95147
f. TXT x95148
f. TXT x95149
f. TXT x95150
f. TXT x95151
f. TXT x95152
f. TXT x95153
f. TXT x95154
f. TXT x95155
f. TXT x95156
f. TXT x95157
f. TXT x95158
f. TXT x95159
f. TXT x95160
f. TXT x95161
f. TXT x95162
f. TXT x95163
f. TXT x95164
f. TXT x95165
f. TXT x95166
f. TXT x95167
0yy*. NS -y -*
f. TXT x95169
f. TXT x95170
f. TXT x95171
f. TXT x95172
f. TXT x95173
f. TXT x95174
f. TXT x95175
f. TXT x95176
f. TXT x95177
f. TXT x95178
f. TXT x95179
f. TXT x95180
f. TXT x95181
f. TXT x95182
f. TXT x95183
f. TXT x95184
f. TXT x95185
f. TXT x95186
f. TXT x95187
f. TXT x95188
f. TXT x95189
f. TXT x95190
f. TXT x95191
f. TXT x95192
f. TXT x95193
f. TXT x95194
f. TXT x95195
f. TXT x95196
f. TXT x95197
f. TXT x95198
f. TXT x95199
f. TXT x95200
f. TXT x95201
f. TXT x95202
f. TXT x95203
f. TXT x95204
f. TXT x95205
f. TXT x95206
f. TXT x95207
f. TXT x95208
f. TXT x95209
f. TXT x95210
f. TXT x95211
f. TXT x95212
f. TXT x95213
f. TXT x95214
f. TXT x95215
f. TXT x95216
f. TXT x95217
f. TXT x95218
f. TXT x95219
f. TXT x95220
f. TXT x95221
f. TXT x95222
f. TXT x95223
f. TXT x95224
f. TXT x95225
f. TXT x95226
f. TXT x95227
f. TXT x95228
f. TXT x95229
f. TXT x95230
f. TXT x95231
x. TXT -- ybc ac0
f. TXT x95233
f. TXT x95234
f. TXT x95235
f. TXT x95236
f. TXT x95237
f. TXT x95238
f. TXT x95239
f. TXT x95240
f. TXT x95241
f. TXT x95242
f. TXT x95243
f. TXT x95244
f. TXT x95245
f. TXT x95246
f. TXT x95247
f. TXT x95248
f. TXT x95249
f. TXT x95250
f. TXT x95251
f. TXT x95252
f. TXT x95253
f. TXT x95254
f. TXT x95255
f. TXT x95256
f. TXT x95257
f. TXT x95258
f. TXT x95259
f. TXT x95260
f. TXT x95261
f. TXT x95262
f. TXT x95263
f. TXT x95264
f. TXT x95265
f. TXT x95266
f. TXT x95267
f. TXT x95268
f. TXT x95269
f. TXT x95270
f. TXT x95271
f. TXT x95272
f. TXT x95273
f. TXT x95274
f. TXT x95275
f. TXT x95276
f. TXT x95277
f. TXT x95278
f. TXT x95279
f. TXT x95280
f. TXT x95281
f. TXT x95282
f. TXT x95283
f. TXT x95284
f. TXT x95285
f. TXT x95286
f. TXT x95287
f. TXT x95288
f. TXT x95289
f. TXT x95290
f. TXT x95291
f. TXT x95292
f. TXT x95293
f. TXT x95294
f. TXT x95295
$ORIGIN yy.z*.
f. TXT x95297
f. TXT x95298
f. TXT x95299
f. TXT x95300
f. TXT x95301
f. TXT x95302
f. TXT x95303
f. TXT x95304
f. TXT x95305
f. TXT x95306
f. TXT x95307
f. TXT x95308
f. TXT x95309
f. TXT x95310
f. TXT x95311
f. TXT x95312
f. TXT x95313
f. TXT x95314
f. TXT x95315
f. TXT x95316
f. TXT x95317
f. TXT x95318
f. TXT x95319
f. TXT x95320
f. TXT x95321
f. TXT x95322
f. TXT x95323
f. TXT x95324
f. TXT x95325
f. TXT x95326
f. TXT x95327
f. TXT x95328
f. TXT x95329
f. TXT x95330
f. TXT x95331
f. TXT x95332
f. TXT x95333
f. TXT x95334
f. TXT x95335
f. TXT x95336
f. TXT x95337
f. TXT x95338
f. TXT x95339
f. TXT x95340
f. TXT x95341
f. TXT x95342
f. TXT x95343
f. TXT x95344
f. TXT x95345
f. TXT x95346
f. TXT x95347
f. TXT x95348
f. TXT x95349
f. TXT x95350
f. TXT x95351
f. TXT x95352
f. TXT x95353
f. TXT x95354
f. TXT x95355
f. TXT x95356
f. TXT x95357
f. TXT x95358
f. TXT x95359
c-cc.a*x. NS *b
f. TXT x95361
f. TXT x95362
f. TXT x95363
f. TXT x95364
f. TXT x95365
f. TXT x95366
f. TXT x95367
f. TXT x95368
f. TXT x95369
f. TXT x95370
f. TXT x95371
f. TXT x95372
f. TXT x95373
f. TXT x95374
f. TXT x95375
f. TXT x95376
f. TXT x95377
f. TXT x95378
f. TXT x95379
f. TXT x95380
f. TXT x95381
f. TXT x95382
f. TXT x95383
f. TXT x95384
f. TXT x95385
f. TXT x95386
f. TXT x95387
f. TXT x95388
f. TXT x95389
f. TXT x95390
f. TXT x95391
f. TXT x95392
f. TXT x95393
f. TXT x95394
f. TXT x95395
f. TXT x95396
f. TXT x95397
f. TXT x95398
f. TXT x95399
f. TXT x95400
f. TXT x95401
f. TXT x95402
f. TXT x95403
f. TXT x95404
f. TXT x95405
f. TXT x95406
f. TXT x95407
f. TXT x95408
f. TXT x95409
f. TXT x95410
f. TXT x95411
f. TXT x95412
f. TXT x95413
f. TXT x95414
f. TXT x95415
f. TXT x95416
f. TXT x95417
f. TXT x95418
f. TXT x95419
f. TXT x95420
f. TXT x95421
f. TXT x95422
f. TXT x95423
@ TXT *b-
f. TXT x95425
f. TXT x95426
f. TXT x95427
f. TXT x95428
f. TXT x95429
f. TXT x95430
f. TXT x95431
f. TXT x95432
f. TXT x95433
f. TXT x95434
f. TXT x95435
f. TXT x95436
f. TXT x95437
f. TXT x95438
f. TXT x95439
f. TXT x95440
f. TXT x95441
f. TXT x95442
f. TXT x95443
f. TXT x95444
f. TXT x95445
f. TXT x95446
f. TXT x95447
f. TXT x95448
f. TXT x95449
f. TXT x95450
f. TXT x95451
f. TXT x95452
f. TXT x95453
f. TXT x95454
f. TXT x95455
f. TXT x95456
f. TXT x95457
f. TXT x95458
f. TXT x95459
f. TXT x95460
f. TXT x95461
f. TXT x95462
f. TXT x95463
f. TXT x95464
f. TXT x95465
f. TXT x95466
f. TXT x95467
f. TXT x95468
f. TXT x95469
f. TXT x95470
f. TXT x95471
f. TXT x95472
f. TXT x95473
f. TXT x95474
f. TXT x95475
f. TXT x95476
f. TXT x95477
f. TXT x95478
f. TXT x95479
f. TXT x95480
f. TXT x95481
f. TXT x95482
f. TXT x95483
f. TXT x95484
f. TXT x95485
f. TXT x95486
f. TXT x95487
@ TXT yyb
f. TXT x95489
f. TXT x95490
f. TXT x95491
f. TXT x95492
f. TXT x95493
f. TXT x95494
f. TXT x95495
f. TXT x95496
f. TXT x95497
f. TXT x95498
f. TXT x95499
f. TXT x95500
f. TXT x95501
f. TXT x95502
f. TXT x95503
f. TXT x95504
f. TXT x95505
f. TXT x95506
f. TXT x95507
f. TXT x95508
f. TXT x95509
f. TXT x95510
f. TXT x95511
f. TXT x95512
f. TXT x95513
f. TXT x95514
f. TXT x95515
f. TXT x95516
f. TXT x95517
f. TXT x95518
f. TXT x95519
f. TXT x95520
f. TXT x95521
f. TXT x95522
f. TXT x95523
f. TXT x95524
f. TXT x95525
f. TXT x95526
f. TXT x95527
f. TXT x95528
f. TXT x95529
f. TXT x95530
f. TXT x95531
f. TXT x95532
f. TXT x95533
f. TXT x95534
f. TXT x95535
f. TXT x95536
f. TXT x95537
f. TXT x95538
f. TXT x95539
f. TXT x95540
f. TXT x95541
f. TXT x95542
f. TXT x95543
f. TXT x95544
f. TXT x95545
f. TXT x95546
f. TXT x95547
f. TXT x95548
f. TXT x95549
f. TXT x95550
f. TXT x95551
 A c ayca caz
f. TXT x95553
f. TXT x95554
f. TXT x95555
f. TXT x95556
f. TXT x95557
f. TXT x95558
f. TXT x95559
f. TXT x95560
f. TXT x95561
f. TXT x95562
f. TXT x95563
f. TXT x95564
f. TXT x95565
f. TXT x95566
f. TXT x95567
f. TXT x95568
f. TXT x95569
f. TXT x95570
f. TXT x95571
f. TXT x95572
f. TXT x95573
f. TXT x95574
f. TXT x95575
f. TXT x95576
f. TXT x95577
f. TXT x95578
f. TXT x95579
f. TXT x95580
f. TXT x95581
f. TXT x95582
f. TXT x95583
f. TXT x95584
f. TXT x95585
f. TXT x95586
f. TXT x95587
f. TXT x95588
f. TXT x95589
f. TXT x95590
f. TXT x95591
f. TXT x95592
f. TXT x95593
f. TXT x95594
f. TXT x95595
f. TXT x95596
f. TXT x95597
f. TXT x95598
f. TXT x95599
f. TXT x95600
f. TXT x95601
f. TXT x95602
f. TXT x95603
f. TXT x95604
f. TXT x95605
f. TXT x95606
f. TXT x95607
f. TXT x95608
f. TXT x95609
f. TXT x95610
f. TXT x95611
f. TXT x95612
f. TXT x95613
f. TXT x95614
f. TXT x95615
 A cx* *a
f. TXT x95617
f. TXT x95618
f. TXT x95619
f. TXT x95620
f. TXT x95621
f. TXT x95622
f. TXT x95623
f. TXT x95624
f. TXT x95625
f. TXT x95626
f. TXT x95627
f. TXT x95628
f. TXT x95629
f. TXT x95630
f. TXT x95631
f. TXT x95632
f. TXT x95633
f. TXT x95634
f. TXT x95635
f. TXT x95636
f. TXT x95637
f. TXT x95638
f. TXT x95639
f. TXT x95640
f. TXT x95641
f. TXT x95642
f. TXT x95643
f. TXT x95644
f. TXT x95645
f. TXT x95646
f. TXT x95647
f. TXT x95648
f. TXT x95649
f. TXT x95650
f. TXT x95651
f. TXT x95652
f. TXT x95653
f. TXT x95654
f. TXT x95655
f. TXT x95656
f. TXT x95657
f. TXT x95658
f. TXT x95659
f. TXT x95660
f. TXT x95661
f. TXT x95662
f. TXT x95663
f. TXT x95664
f. TXT x95665
f. TXT x95666
f. TXT x95667
f. TXT x95668
f. TXT x95669
f. TXT x95670
f. TXT x95671
f. TXT x95672
f. TXT x95673
f. TXT x95674
f. TXT x95675
f. TXT x95676
f. TXT x95677
f. TXT x95678
f. TXT x95679

f. TXT x95681
f. TXT x95682
f. TXT x95683
f. TXT x95684
f. TXT x95685
f. TXT x95686
f. TXT x95687
f. TXT x95688
f. TXT x95689
f. TXT x95690
f. TXT x95691
f. TXT x95692
f. TXT x95693
f. TXT x95694
f. TXT x95695
f. TXT x95696
f. TXT x95697
f. TXT x95698
f. TXT x95699
f. TXT x95700
f. TXT x95701
f. TXT x95702
f. TXT x95703
f. TXT x95704
f. TXT x95705
f. TXT x95706
f. TXT x95707
f. TXT x95708
f. TXT x95709
f. TXT x95710
f. TXT x95711
f. TXT x95712
f. TXT x95713
f. TXT x95714
f. TXT x95715
f. TXT x95716
f. TXT x95717
f. TXT x95718
f. TXT x95719
f. TXT x95720
f. TXT x95721
f. TXT x95722
f. TXT x95723
f. TXT x95724
f. TXT x95725
f. TXT x95726
f. TXT x95727
f. TXT x95728
f. TXT x95729
f. TXT x95730
f. TXT x95731
f. TXT x95732
f. TXT x95733
f. TXT x95734
f. TXT x95735
f. TXT x95736
f. TXT x95737
f. TXT x95738
f. TXT x95739
f. TXT x95740
f. TXT x95741
f. TXT x95742
f. TXT x95743
@ TXT vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
f. TXT x95745
f. TXT x95746
f. TXT x95747
f. TXT x95748
f. TXT x95749
f. TXT x95750
f. TXT x95751
f. TXT x95752
f. TXT x95753
f. TXT x95754
f. TXT x95755
f. TXT x95756
f. TXT x95757
f. TXT x95758
f. TXT x95759
f. TXT x95760
f. TXT x95761
f. TXT x95762
f. TXT x95763
f. TXT x95764
f. TXT x95765
f. TXT x95766
f. TXT x95767
f. TXT x95768
f. TXT x95769
f. TXT x95770
f. TXT x95771
f. TXT x95772
f. TXT x95773
f. TXT x95774
f. TXT x95775
f. TXT x95776
f. TXT x95777
f. TXT x95778
f. TXT x95779
f. TXT x95780
f. TXT x95781
f. TXT x95782
f. TXT x95783
f. TXT x95784
f. TXT x95785
f. TXT x95786
f. TXT x95787
f. TXT x95788
f. TXT x95789
f. TXT x95790
f. TXT x95791
f. TXT x95792
f. TXT x95793
f. TXT x95794
f. TXT x95795
f. TXT x95796
f. TXT x95797
f. TXT x95798
f. TXT x95799
f. TXT x95800
f. TXT x95801
f. TXT x95802
f. TXT x95803
f. TXT x95804
f. TXT x95805
f. TXT x95806
f. TXT x95807
$ORIGIN *.
f. TXT x95809
f. TXT x95810
f. TXT x95811
f. TXT x95812
f. TXT x95813
f. TXT x95814
f. TXT x95815
f. TXT x95816
f. TXT x95817
f. TXT x95818
f. TXT x95819
f. TXT x95820
f. TXT x95821
f. TXT x95822
f. TXT x95823
f. TXT x95824
f. TXT x95825
f. TXT x95826
f. TXT x95827
f. TXT x95828
f. TXT x95829
f. TXT x95830
f. TXT x95831
f. TXT x95832
f. TXT x95833
f. TXT x95834
f. TXT x95835
f. TXT x95836
f. TXT x95837
f. TXT x95838
f. TXT x95839
f. TXT x95840
f. TXT x95841
f. TXT x95842
f. TXT x95843
f. TXT x95844
f. TXT x95845
f. TXT x95846
f. TXT x95847
f. TXT x95848
f. TXT x95849
f. TXT x95850
f. TXT x95851
f. TXT x95852
f. TXT x95853
f. TXT x95854
f. TXT x95855
f. TXT x95856
f. TXT x95857
f. TXT x95858
f. TXT x95859
f. TXT x95860
f. TXT x95861
f. TXT x95862
f. TXT x95863
f. TXT x95864
f. TXT x95865
f. TXT x95866
f. TXT x95867
f. TXT x95868
f. TXT x95869
f. TXT x95870
f. TXT x95871
$TTL 37316778
f. TXT x95873
f. TXT x95874
f. TXT x95875
f. TXT x95876
f. TXT x95877
f. TXT x95878
f. TXT x95879
f. TXT x95880
f. TXT x95881
f. TXT x95882
f. TXT x95883
f. TXT x95884
f. TXT x95885
f. TXT x95886
f. TXT x95887
f. TXT x95888
f. TXT x95889
f. TXT x95890
f. TXT x95891
f. TXT x95892
f. TXT x95893
f. TXT x95894
f. TXT x95895
f. TXT x95896
f. TXT x95897
f. TXT x95898
f. TXT x95899
f. TXT x95900
f. TXT x95901
f. TXT x95902
f. TXT x95903
f. TXT x95904
f. TXT x95905
f. TXT x95906
f. TXT x95907
f. TXT x95908
f. TXT x95909
f. TXT x95910
f. TXT x95911
f. TXT x95912
f. TXT x95913
f. TXT x95914
f. TXT x95915
f. TXT x95916
f. TXT x95917
f. TXT x95918
f. TXT x95919
f. TXT x95920
f. TXT x95921
f. TXT x95922
f. TXT x95923
f. TXT x95924
f. TXT x95925
f. TXT x95926
f. TXT x95927
f. TXT x95928
f. TXT x95929
f. TXT x95930
f. TXT x95931
f. TXT x95932
f. TXT x95933
f. TXT x95934
f. TXT x95935

f. TXT x95937
f. TXT x95938
f. TXT x95939
f. TXT x95940
f. TXT x95941
f. TXT x95942
f. TXT x95943
f. TXT x95944
f. TXT x95945
f. TXT x95946
f. TXT x95947
f. TXT x95948
f. TXT x95949
f. TXT x95950
f. TXT x95951
f. TXT x95952
f. TXT x95953
f. TXT x95954
f. TXT x95955
f. TXT x95956
f. TXT x95957
f. TXT x95958
f. TXT x95959
f. TXT x95960
f. TXT x95961
f. TXT x95962
f. TXT x95963
f. TXT x95964
f. TXT x95965
f. TXT x95966
f. TXT x95967
f. TXT x95968
f. TXT x95969
f. TXT x95970
f. TXT x95971
f. TXT x95972
f. TXT x95973
f. TXT x95974
f. TXT x95975
f. TXT x95976
f. TXT x95977
f. TXT x95978
f. TXT x95979
f. TXT x95980
f. TXT x95981
f. TXT x95982
f. TXT x95983
f. TXT x95984
f. TXT x95985
f. TXT x95986
f. TXT x95987
f. TXT x95988
f. TXT x95989
f. TXT x95990
f. TXT x95991
f. TXT x95992
f. TXT x95993
f. TXT x95994
f. TXT x95995
f. TXT x95996
f. TXT x95997
f. TXT x95998
f. TXT x95999
xxya NS -
f. TXT x96001
f. TXT x96002
f. TXT x96003
f. TXT x96004
f. TXT x96005
f. TXT x96006
f. TXT x96007
f. TXT x96008
f. TXT x96009
f. TXT x96010
f. TXT x96011
f. TXT x96012
f. TXT x96013
f. TXT x96014
f. TXT x96015
f. TXT x96016
f. TXT x96017
f. TXT x96018
f. TXT x96019
f. TXT x96020
f. TXT x96021
f. TXT x96022
f. TXT x96023
f. TXT x96024
f. TXT x96025
f. TXT x96026
f. TXT x96027
f. TXT x96028
f. TXT x96029
f. TXT x96030
f. TXT x96031
f. TXT x96032
f. TXT x96033
f. TXT x96034
f. TXT x96035
f. TXT x96036
f. TXT x96037
f. TXT x96038
f. TXT x96039
f. TXT x96040
f. TXT x96041
f. TXT x96042
f. TXT x96043
f. TXT x96044
f. TXT x96045
f. TXT x96046
f. TXT x96047
f. TXT x96048
f. TXT x96049
f. TXT x96050
f. TXT x96051
f. TXT x96052
f. TXT x96053
f. TXT x96054
f. TXT x96055
f. TXT x96056
f. TXT x96057
f. TXT x96058
f. TXT x96059
f. TXT x96060
f. TXT x96061
f. TXT x96062
f. TXT x96063
 A 0y*0
f. TXT x96065
f. TXT x96066
f. TXT x96067
f. TXT x96068
f. TXT x96069
f. TXT x96070
f. TXT x96071
f. TXT x96072
f. TXT x96073
f. TXT x96074
f. TXT x96075
f. TXT x96076
f. TXT x96077
f. TXT x96078
f. TXT x96079
f. TXT x96080
f. TXT x96081
f. TXT x96082
f. TXT x96083
f. TXT x96084
f. TXT x96085
f. TXT x96086
f. TXT x96087
f. TXT x96088
f. TXT x96089
f. TXT x96090
f. TXT x96091
f. TXT x96092
f. TXT x96093
f. TXT x96094
f. TXT x96095
f. TXT x96096
f. TXT x96097
f. TXT x96098
f. TXT x96099
f. TXT x96100
f. TXT x96101
f. TXT x96102
f. TXT x96103
f. TXT x96104
f. TXT x96105
f. TXT x96106
f. TXT x96107
f. TXT x96108
f. TXT x96109
f. TXT x96110
f. TXT x96111
f. TXT x96112
f. TXT x96113
f. TXT x96114
f. TXT x96115
f. TXT x96116
f. TXT x96117
f. TXT x96118
f. TXT x96119
f. TXT x96120
f. TXT x96121
f. TXT x96122
f. TXT x96123
f. TXT x96124
f. TXT x96125
f. TXT x96126
f. TXT x96127
 NS y0xx -
f. TXT x96129
f. TXT x96130
f. TXT x96131
f. TXT x96132
f. TXT x96133
f. TXT x96134
f. TXT x96135
f. TXT x96136
f. TXT x96137
f. TXT x96138
f. TXT x96139
f. TXT x96140
f. TXT x96141
f. TXT x96142
f. TXT x96143
f. TXT x96144
f. TXT x96145
f. TXT x96146
f. TXT x96147
f. TXT x96148
f. TXT x96149
f. TXT x96150
f. TXT x96151
f. TXT x96152
f. TXT x96153
f. TXT x96154
f. TXT x96155
f. TXT x96156
f. TXT x96157
f. TXT x96158
f. TXT x96159
f. TXT x96160
f. TXT x96161
f. TXT x96162
f. TXT x96163
f. TXT x96164
f. TXT x96165
f. TXT x96166
f. TXT x96167
f. TXT x96168
f. TXT x96169
f. TXT x96170
f. TXT x96171
f. TXT x96172
f. TXT x96173
f. TXT x96174
f. TXT x96175
f. TXT x96176
f. TXT x96177
f. TXT x96178
f. TXT x96179
f. TXT x96180
f. TXT x96181
f. TXT x96182
f. TXT x96183
f. TXT x96184
f. TXT x96185
f. TXT x96186
f. TXT x96187
f. TXT x96188
f. TXT x96189
f. TXT x96190
f. TXT x96191
$TTL 698319529
f. TXT x96193
f. TXT x96194
f. TXT x96195
f. TXT x96196
f. TXT x96197
f. TXT x96198
f. TXT x96199
f. TXT x96200
f. TXT x96201
f. TXT x96202
f. TXT x96203
f. TXT x96204
f. TXT x96205
f. TXT x96206
f. TXT x96207
f. TXT x96208
f. TXT x96209
f. TXT x96210
f. TXT x96211
f. TXT x96212
f. TXT x96213
f. TXT x96214
f. TXT x96215
f. TXT x96216
f. TXT x96217
f. TXT x96218
f. TXT x96219
f. TXT x96220
f. TXT x96221
f. TXT x96222
f. TXT x96223
f. TXT x96224
f. TXT x96225
f. TXT x96226
f. TXT x96227
f. TXT x96228
f. TXT x96229
f. TXT x96230
f. TXT x96231
f. TXT x96232
f. TXT x96233
f. TXT x96234
f. TXT x96235
f. TXT x96236
f. TXT x96237
f. TXT x96238
f. TXT x96239
f. TXT x96240
f. TXT x96241
f. TXT x96242
f. TXT x96243
f. TXT x96244
f. TXT x96245
f. TXT x96246
f. TXT x96247
f. TXT x96248
f. TXT x96249
f. TXT x96250
f. TXT x96251
f. TXT x96252
f. TXT x96253
f. TXT x96254
f. TXT x96255
; z-c
f. TXT x96257
f. TXT x96258
f. TXT x96259
f. TXT x96260
f. TXT x96261
f. TXT x96262
f. TXT x96263
f. TXT x96264
f. TXT x96265
f. TXT x96266
f. TXT x96267
f. TXT x96268
f. TXT x96269
f. TXT x96270
f. TXT x96271
f. TXT x96272
f. TXT x96273
f. TXT x96274
f. TXT x96275
f. TXT x96276
f. TXT x96277
f. TXT x96278
f. TXT x96279
f. TXT x96280
f. TXT x96281
f. TXT x96282
f. TXT x96283
f. TXT x96284
f. TXT x96285
f. TXT x96286
f. TXT x96287
f. TXT x96288
f. TXT x96289
f. TXT x96290
f. TXT x96291
f. TXT x96292
f. TXT x96293
f. TXT x96294
f. TXT x96295
f. TXT x96296
f. TXT x96297
f. TXT x96298
f. TXT x96299
f. TXT x96300
f. TXT x96301
f. TXT x96302
f. TXT x96303
f. TXT x96304
f. TXT x96305
f. TXT x96306
f. TXT x96307
f. TXT x96308
f. TXT x96309
f. TXT x96310
f. TXT x96311
f. TXT x96312
f. TXT x96313
f. TXT x96314
f. TXT x96315
f. TXT x96316
f. TXT x96317
f. TXT x96318
f. TXT x96319

f. TXT x96321
f. TXT x96322
f. TXT x96323
f. TXT x96324
f. TXT x96325
f. TXT x96326
f. TXT x96327
f. TXT x96328
f. TXT x96329
f. TXT x96330
f. TXT x96331
f. TXT x96332
f. TXT x96333
f. TXT x96334
f. TXT x96335
f. TXT x96336
f. TXT x96337
f. TXT x96338
f. TXT x96339
f. TXT x96340
f. TXT x96341
f. TXT x96342
f. TXT x96343
f. TXT x96344
f. TXT x96345
f. TXT x96346
f. TXT x96347
f. TXT x96348
f. TXT x96349
f. TXT x96350
f. TXT x96351
f. TXT x96352
f. TXT x96353
f. TXT x96354
f. TXT x96355
f. TXT x96356
f. TXT x96357
f. TXT x96358
f. TXT x96359
f. TXT x96360
f. TXT x96361
f. TXT x96362
f. TXT x96363
f. TXT x96364
f. TXT x96365
f. TXT x96366
f. TXT x96367
f. TXT x96368
f. TXT x96369
f. TXT x96370
f. TXT x96371
f. TXT x96372
f. TXT x96373
f. TXT x96374
f. TXT x96375
f. TXT x96376
f. TXT x96377
f. TXT x96378
f. TXT x96379
f. TXT x96380
f. TXT x96381
f. TXT x96382
f. TXT x96383

f. TXT x96385
f. TXT x96386
f. TXT x96387
f. TXT x96388
f. TXT x96389
f. TXT x96390
f. TXT x96391
f. TXT x96392
f. TXT x96393
f. TXT x96394
f. TXT x96395
f. TXT x96396
f. TXT x96397
f. TXT x96398
f. TXT x96399
f. TXT x96400
f. TXT x96401
f. TXT x96402
f. TXT x96403
f. TXT x96404
f. TXT x96405
f. TXT x96406
f. TXT x96407
f. TXT x96408
f. TXT x96409
f. TXT x96410
f. TXT x96411
f. TXT x96412
f. TXT x96413
f. TXT x96414
f. TXT x96415
f. TXT x96416
f. TXT x96417
f. TXT x96418
f. TXT x96419
f. TXT x96420
f. TXT x96421
f. TXT x96422
f. TXT x96423
f. TXT x96424
f. TXT x96425
f. TXT x96426
f. TXT x96427
f. TXT x96428
f. TXT x96429
f. TXT x96430
f. TXT x96431
f. TXT x96432
f. TXT x96433
f. TXT x96434
f. TXT x96435
f. TXT x96436
f. TXT x96437
f. TXT x96438
f. TXT x96439
f. TXT x96440
f. TXT x96441
f. TXT x96442
f. TXT x96443
f. TXT x96444
f. TXT x96445
f. TXT x96446
f. TXT x96447
; *x
f. TXT x96449
f. TXT x96450
f. TXT x96451
f. TXT x96452
f. TXT x96453
f. TXT x96454
f. TXT x96455
f. TXT x96456
f. TXT x96457
f. TXT x96458
f. TXT x96459
f. TXT x96460
f. TXT x96461
f. TXT x96462
f. TXT x96463
f. TXT x96464
f. TXT x96465
f. TXT x96466
f. TXT x96467
f. TXT x96468
f. TXT x96469
f. TXT x96470
f. TXT x96471
f. TXT x96472
f. TXT x96473
f. TXT x96474
f. TXT x96475
f. TXT x96476
f. TXT x96477
f. TXT x96478
f. TXT x96479
f. TXT x96480
f. TXT x96481
f. TXT x96482
f. TXT x96483
f. TXT x96484
f. TXT x96485
f. TXT x96486
f. TXT x96487
f. TXT x96488
f. TXT x96489
f. TXT x96490
f. TXT x96491
f. TXT x96492
f. TXT x96493
f. TXT x96494
f. TXT x96495
f. TXT x96496
f. TXT x96497
f. TXT x96498
f. TXT x96499
f. TXT x96500
f. TXT x96501
f. TXT x96502
f. TXT x96503
f. TXT x96504
f. TXT x96505
f. TXT x96506
f. TXT x96507
f. TXT x96508
f. TXT x96509
f. TXT x96510
f. TXT x96511
zy TXT y
f. TXT x96513
f. TXT x96514
f. TXT x96515
f. TXT x96516
f. TXT x96517
f. TXT x96518
f. TXT x96519
f. TXT x96520
f. TXT x96521
f. TXT x96522
f. TXT x96523
f. TXT x96524
f. TXT x96525
f. TXT x96526
f. TXT x96527
f. TXT x96528
f. TXT x96529
f. TXT x96530
f. TXT x96531
f. TXT x96532
f. TXT x96533
f. TXT x96534
f. TXT x96535
f. TXT x96536
f. TXT x96537
f. TXT x96538
f. TXT x96539
f. TXT x96540
f. TXT x96541
f. TXT x96542
f. TXT x96543
f. TXT x96544
f. TXT x96545
f. TXT x96546
f. TXT x96547
f. TXT x96548
f. TXT x96549
f. TXT x96550
f. TXT x96551
f. TXT x96552
f. TXT x96553
f. TXT x96554
f. TXT x96555
f. TXT x96556
f. TXT x96557
f. TXT x96558
f. TXT x96559
f. TXT x96560
f. TXT x96561
f. TXT x96562
f. TXT x96563
f. TXT x96564
f. TXT x96565
f. TXT x96566
f. TXT x96567
f. TXT x96568
f. TXT x96569
f. TXT x96570
f. TXT x96571
f. TXT x96572
f. TXT x96573
f. TXT x96574
f. TXT x96575
@ A ybb y--b *-cb
f. TXT x96577
f. TXT x96578
f. TXT x96579
f. TXT x96580
f. TXT x96581
f. TXT x96582
f. TXT x96583
f. TXT x96584
f. TXT x96585
f. TXT x96586
f. TXT x96587
f. TXT x96588
f. TXT x96589
f. TXT x96590
f. TXT x96591
f. TXT x96592
f. TXT x96593
f. TXT x96594
f. TXT x96595
f. TXT x96596
f. TXT x96597
f. TXT x96598
f. TXT x96599
f. TXT x96600
f. TXT x96601
f. TXT x96602
f. TXT x96603
f. TXT x96604
f. TXT x96605
f. TXT x96606
f. TXT x96607
f. TXT x96608
f. TXT x96609
f. TXT x96610
f. TXT x96611
f. TXT x96612
f. TXT x96613
f. TXT x96614
f. TXT x96615
f. TXT x96616
f. TXT x96617
f. TXT x96618
f. TXT x96619
f. TXT x96620
f. TXT x96621
f. TXT x96622
f. TXT x96623
f. TXT x96624
f. TXT x96625
f. TXT x96626
f. TXT x96627
f. TXT x96628
f. TXT x96629
f. TXT x96630
f. TXT x96631
f. TXT x96632
f. TXT x96633
f. TXT x96634
f. TXT x96635
f. TXT x96636
f. TXT x96637
f. TXT x96638
f. TXT x96639
$ORIGIN z.
f. TXT x96641
f. TXT x96642
f. TXT x96643
f. TXT x96644
f. TXT x96645
f. TXT x96646
f. TXT x96647
f. TXT x96648
f. TXT x96649
f. TXT x96650
f. TXT x96651
f. TXT x96652
f. TXT x96653
f. TXT x96654
f. TXT x96655
f. TXT x96656
f. TXT x96657
f. TXT x96658
f. TXT x96659
f. TXT x96660
f. TXT x96661
f. TXT x96662
f. TXT x96663
f. TXT x96664
f. TXT x96665
f. TXT x96666
f. TXT x96667
f. TXT x96668
f. TXT x96669
f. TXT x96670
f. TXT x96671
f. TXT x96672
f. TXT x96673
f. TXT x96674
f. TXT x96675
f. TXT x96676
f. TXT x96677
f. TXT x96678
f. TXT x96679
f. TXT x96680
f. TXT x96681
f. TXT x96682
f. TXT x96683
f. TXT x96684
f. TXT x96685
f. TXT x96686
f. TXT x96687
f. TXT x96688
f. TXT x96689
f. TXT x96690
f. TXT x96691
f. TXT x96692
f. TXT x96693
f. TXT x96694
f. TXT x96695
f. TXT x96696
f. TXT x96697
f. TXT x96698
f. TXT x96699
f. TXT x96700
f. TXT x96701
f. TXT x96702
f. TXT x96703
$TTL 6
f. TXT x96705
f. TXT x96706
f. TXT x96707
f. TXT x96708
f. TXT x96709
f. TXT x96710
f. TXT x96711
f. TXT x96712
f. TXT x96713
f. TXT x96714
f. TXT x96715
f. TXT x96716
f. TXT x96717
f. TXT x96718
f. TXT x96719
f. TXT x96720
f. TXT x96721
f. TXT x96722
f. TXT x96723
f. TXT x96724
f. TXT x96725
f. TXT x96726
f. TXT x96727
f. TXT x96728
f. TXT x96729
f. TXT x96730
f. TXT x96731
f. TXT x96732
f. TXT x96733
f. TXT x96734
f. TXT x96735
f. TXT x96736
f. TXT x96737
f. TXT x96738
f. TXT x96739
f. TXT x96740
f. TXT x96741
f. TXT x96742
f. TXT x96743
f. TXT x96744
f. TXT x96745
f. TXT x96746
f. TXT x96747
f. TXT x96748
f. TXT x96749
f. TXT x96750
f. TXT x96751
f. TXT x96752
f. TXT x96753
f. TXT x96754
f. TXT x96755
f. TXT x96756
f. TXT x96757
f. TXT x96758
f. TXT x96759
f. TXT x96760
f. TXT x96761
f. TXT x96762
f. TXT x96763
f. TXT x96764
f. TXT x96765
f. TXT x96766
f. TXT x96767
@ NS - xyc0 y-cz
f. TXT x96769
f. TXT x96770
f. TXT x96771
f. TXT x96772
f. TXT x96773
f. TXT x96774
f. TXT x96775
f. TXT x96776
f. TXT x96777
f. TXT x96778
f. TXT x96779
f. TXT x96780
f. TXT x96781
f. TXT x96782
f. TXT x96783
f. TXT x96784
f. TXT x96785
f. TXT x96786
f. TXT x96787
f. TXT x96788
f. TXT x96789
f. TXT x96790
f. TXT x96791
f. TXT x96792
f. TXT x96793
f. TXT x96794
f. TXT x96795
f. TXT x96796
f. TXT x96797
f. TXT x96798
f. TXT x96799
f. TXT x96800
f. TXT x96801
f. TXT x96802
f. TXT x96803
f. TXT x96804
f. TXT x96805
f. TXT x96806
f. TXT x96807
f. TXT x96808
f. TXT x96809
f. TXT x96810
f. TXT x96811
f. TXT x96812
f. TXT x96813
f. TXT x96814
f. TXT x96815
f. TXT x96816
f. TXT x96817
f. TXT x96818
f. TXT x96819
f. TXT x96820
f. TXT x96821
f. TXT x96822
f. TXT x96823
f. TXT x96824
f. TXT x96825
f. TXT x96826
f. TXT x96827
f. TXT x96828
f. TXT x96829
f. TXT x96830
f. TXT x96831
**. NS 0a-- y
f. TXT x96833
f. TXT x96834
f. TXT x96835
f. TXT x96836
f. TXT x96837
f. TXT x96838
f. TXT x96839
f. TXT x96840
f. TXT x96841
f. TXT x96842
f. TXT x96843
f. TXT x96844
f. TXT x96845
f. TXT x96846
f. TXT x96847
f. TXT x96848
f. TXT x96849
f. TXT x96850
f. TXT x96851
f. TXT x96852
f. TXT x96853
f. TXT x96854
f. TXT x96855
f. TXT x96856
f. TXT x96857
f. TXT x96858
f. TXT x96859
f. TXT x96860
f. TXT x96861
f. TXT x96862
f. TXT x96863
f. TXT x96864
f. TXT x96865
f. TXT x96866
f. TXT x96867
f. TXT x96868
f. TXT x96869
f. TXT x96870
f. TXT x96871
f. TXT x96872
f. TXT x96873
f. TXT x96874
f. TXT x96875
f. TXT x96876
f. TXT x96877
f. TXT x96878
f. TXT x96879
f. TXT x96880
f. TXT x96881
f. TXT x96882
f. TXT x96883
f. TXT x96884
f. TXT x96885
f. TXT x96886
f. TXT x96887
f. TXT x96888
f. TXT x96889
f. TXT x96890
f. TXT x96891
f. TXT x96892
f. TXT x96893
f. TXT x96894
f. TXT x96895
$ORIGIN c.a.
f. TXT x96897
f. TXT x96898
f. TXT x96899
f. TXT x96900
f. TXT x96901
f. TXT x96902
f. TXT x96903
f. TXT x96904
f. TXT x96905
f. TXT x96906
f. TXT x96907
f. TXT x96908
f. TXT x96909
f. TXT x96910
f. TXT x96911
f. TXT x96912
f. TXT x96913
f. TXT x96914
f. TXT x96915
f. TXT x96916
f. TXT x96917
f. TXT x96918
f. TXT x96919
f. TXT x96920
f. TXT x96921
f. TXT x96922
f. TXT x96923
f. TXT x96924
f. TXT x96925
f. TXT x96926
f. TXT x96927
f. TXT x96928
f. TXT x96929
f. TXT x96930
f. TXT x96931
f. TXT x96932
f. TXT x96933
f. TXT x96934
f. TXT x96935
f. TXT x96936
f. TXT x96937
f. TXT x96938
f. TXT x96939
f. TXT x96940
f. TXT x96941
f. TXT x96942
f. TXT x96943
f. TXT x96944
f. TXT x96945
f. TXT x96946
f. TXT x96947
f. TXT x96948
f. TXT x96949
f. TXT x96950
f. TXT x96951
f. TXT x96952
f. TXT x96953
f. TXT x96954
f. TXT x96955
f. TXT x96956
f. TXT x96957
f. TXT x96958
f. TXT x96959
@ TXT ccz- ba y0
f. TXT x96961
f. TXT x96962
f. TXT x96963
f. TXT x96964
f. TXT x96965
f. TXT x96966
f. TXT x96967
f. TXT x96968
f. TXT x96969
f. TXT x96970
f. TXT x96971
f. TXT x96972
f. TXT x96973
f. TXT x96974
f. TXT x96975
f. TXT x96976
f. TXT x96977
f. TXT x96978
f. TXT x96979
f. TXT x96980
f. TXT x96981
f. TXT x96982
f. TXT x96983
f. TXT x96984
f. TXT x96985
f. TXT x96986
f. TXT x96987
f. TXT x96988
f. TXT x96989
f. TXT x96990
f. TXT x96991
f. TXT x96992
f. TXT x96993
f. TXT x96994
f. TXT x96995
f. TXT x96996
f. TXT x96997
f. TXT x96998
f. TXT x96999
f. TXT x97000
f. TXT x97001
f. TXT x97002
f. TXT x97003
f. TXT x97004
f. TXT x97005
f. TXT x97006
f. TXT x97007
f. TXT x97008
f. TXT x97009
f. TXT x97010
f. TXT x97011
f. TXT x97012
f. TXT x97013
f. TXT x97014
f. TXT x97015
f. TXT x97016
f. TXT x97017
f. TXT x97018
f. TXT x97019
f. TXT x97020
f. TXT x97021
f. TXT x97022
f. TXT x97023
cyc TXT b a
f. TXT x97025
f. TXT x97026
f. TXT x97027
f. TXT x97028
f. TXT x97029
f. TXT x97030
f. TXT x97031
f. TXT x97032
f. TXT x97033
f. TXT x97034
f. TXT x97035
f. TXT x97036
f. TXT x97037
f. TXT x97038
f. TXT x97039
f. TXT x97040
f. TXT x97041
f. TXT x97042
f. TXT x97043
f. TXT x97044
f. TXT x97045
f. TXT x97046
f. TXT x97047
f. TXT x97048
f. TXT x97049
f. TXT x97050
f. TXT x97051
f. TXT x97052
f. TXT x97053
f. TXT x97054
f. TXT x97055
f. TXT x97056
f. TXT x97057
f. TXT x97058
f. TXT x97059
f. TXT x97060
f. TXT x97061
f. TXT x97062
f. TXT x97063
f. TXT x97064
f. TXT x97065
f. TXT x97066
f. TXT x97067
f. TXT x97068
f. TXT x97069
f. TXT x97070
f. TXT x97071
f. TXT x97072
f. TXT x97073
f. TXT x97074
f. TXT x97075
f. TXT x97076
f. TXT x97077
f. TXT x97078
f. TXT x97079
f. TXT x97080
f. TXT x97081
f. TXT x97082
f. TXT x97083
f. TXT x97084
f. TXT x97085
f. TXT x97086
f. TXT x97087
*a A aa0z caa
f. TXT x97089
f. TXT x97090
f. TXT x97091
f. TXT x97092
f. TXT x97093
f. TXT x97094
f. TXT x97095
f. TXT x97096
f. TXT x97097
f. TXT x97098
f. TXT x97099
f. TXT x97100
f. TXT x97101
f. TXT x97102
f. TXT x97103
f. TXT x97104
f. TXT x97105
f. TXT x97106
f. TXT x97107
f. TXT x97108
f. TXT x97109
f. TXT x97110
f. TXT x97111
f. TXT x97112
f. TXT x97113
f. TXT x97114
f. TXT x97115
f. TXT x97116
f. TXT x97117
f. TXT x97118
f. TXT x97119
f. TXT x97120
f. TXT x97121
f. TXT x97122
f. TXT x97123
f. TXT x97124
f. TXT x97125
f. TXT x97126
f. TXT x97127
f. TXT x97128
f. TXT x97129
f. TXT x97130
f. TXT x97131
f. TXT x97132
f. TXT x97133
f. TXT x97134
f. TXT x97135
f. TXT x97136
f. TXT x97137
f. TXT x97138
f. TXT x97139
f. TXT x97140
f. TXT x97141
f. TXT x97142
f. TXT x97143
f. TXT x97144
f. TXT x97145
f. TXT x97146
f. TXT x97147
f. TXT x97148
f. TXT x97149
f. TXT x97150
f. TXT x97151
b0. A yc
f. TXT x97153
f. TXT x97154
f. TXT x97155
f. TXT x97156
f. TXT x97157
f. TXT x97158
f. TXT x97159
f. TXT x97160
f. TXT x97161
f. TXT x97162
f. TXT x97163
f. TXT x97164
f. TXT x97165
f. TXT x97166
f. TXT x97167
f. TXT x97168
f. TXT x97169
f. TXT x97170
f. TXT x97171
f. TXT x97172
f. TXT x97173
f. TXT x97174
f. TXT x97175
f. TXT x97176
f. TXT x97177
f. TXT x97178
f. TXT x97179
f. TXT x97180
f. TXT x97181
f. TXT x97182
f. TXT x97183
f. TXT x97184
f. TXT x97185
f. TXT x97186
f. TXT x97187
f. TXT x97188
f. TXT x97189
f. TXT x97190
f. TXT x97191
f. TXT x97192
f. TXT x97193
f. TXT x97194
f. TXT x97195
f. TXT x97196
f. TXT x97197
f. TXT x97198
f. TXT x97199
f. TXT x97200
f. TXT x97201
f. TXT x97202
f. TXT x97203
f. TXT x97204
f. TXT x97205
f. TXT x97206
f. TXT x97207
f. TXT x97208
f. TXT x97209
f. TXT x97210
f. TXT x97211
f. TXT x97212
f. TXT x97213
f. TXT x97214
f. TXT x97215
@ A bx zaxy
f. TXT x97217
f. TXT x97218
f. TXT x97219
f. TXT x97220
f. TXT x97221
f. TXT x97222
f. TXT x97223
f. TXT x97224
f. TXT x97225
f. TXT x97226
f. TXT x97227
f. TXT x97228
f. TXT x97229
f. TXT x97230
f. TXT x97231
f. TXT x97232
f. TXT x97233
f. TXT x97234
f. TXT x97235
f. TXT x97236
f. TXT x97237
f. TXT x97238
f. TXT x97239
f. TXT x97240
f. TXT x97241
f. TXT x97242
f. TXT x97243
f. TXT x97244
f. TXT x97245
f. TXT x97246
f. TXT x97247
f. TXT x97248
f. TXT x97249
f. TXT x97250
f. TXT x97251
f. TXT x97252
f. TXT x97253
f. TXT x97254
f. TXT x97255
f. TXT x97256
f. TXT x97257
f. TXT x97258
f. TXT x97259
f. TXT x97260
f. TXT x97261
f. TXT x97262
f. TXT x97263
f. TXT x97264
f. TXT x97265
f. TXT x97266
f. TXT x97267
f. TXT x97268
f. TXT x97269
f. TXT x97270
f. TXT x97271
f. TXT x97272
f. TXT x97273
f. TXT x97274
f. TXT x97275
f. TXT x97276
f. TXT x97277
f. TXT x97278
f. TXT x97279
@ A bycz a*c by
f. TXT x97281
f. TXT x97282
f. TXT x97283
f. TXT x97284
f. TXT x97285
f. TXT x97286
f. TXT x97287
f. TXT x97288
f. TXT x97289
f. TXT x97290
f. TXT x97291
f. TXT x97292
f. TXT x97293
f. TXT x97294
f. TXT x97295
f. TXT x97296
f. TXT x97297
f. TXT x97298
f. TXT x97299
f. TXT x97300
f. TXT x97301
f. TXT x97302
f. TXT x97303
f. TXT x97304
f. TXT x97305
f. TXT x97306
f. TXT x97307
f. TXT x97308
f. TXT x97309
f. TXT x97310
f. TXT x97311
f. TXT x97312
f. TXT x97313
f. TXT x97314
f. TXT x97315
f. TXT x97316
f. TXT x97317
f. TXT x97318
f. TXT x97319
f. TXT x97320
f. TXT x97321
f. TXT x97322
f. TXT x97323
f. TXT x97324
f. TXT x97325
f. TXT x97326
f. TXT x97327
f. TXT x97328
f. TXT x97329
f. TXT x97330
f. TXT x97331
f. TXT x97332
f. TXT x97333
f. TXT x97334
f. TXT x97335
f. TXT x97336
f. TXT x97337
f. TXT x97338
f. TXT x97339
f. TXT x97340
f. TXT x97341
f. TXT x97342
f. TXT x97343
 TXT czy
f. TXT x97345
f. TXT x97346
f. TXT x97347
f. TXT x97348
f. TXT x97349
f. TXT x97350
f. TXT x97351
f. TXT x97352
f. TXT x97353
f. TXT x97354
f. TXT x97355
f. TXT x97356
f. TXT x97357
f. TXT x97358
f. TXT x97359
f. TXT x97360
f. TXT x97361
f. TXT x97362
f. TXT x97363
f. TXT x97364
f. TXT x97365
f. TXT x97366
f. TXT x97367
f. TXT x97368
f. TXT x97369
f. TXT x97370
f. TXT x97371
f. TXT x97372
f. TXT x97373
f. TXT x97374
f. TXT x97375
f. TXT x97376
f. TXT x97377
f. TXT x97378
f. TXT x97379
f. TXT x97380
f. TXT x97381
f. TXT x97382
f. TXT x97383
f. TXT x97384
f. TXT x97385
f. TXT x97386
f. TXT x97387
f. TXT x97388
f. TXT x97389
f. TXT x97390
f. TXT x97391
f. TXT x97392
f. TXT x97393
f. TXT x97394
f. TXT x97395
f. TXT x97396
f. TXT x97397
f. TXT x97398
f. TXT x97399
f. TXT x97400
f. TXT x97401
f. TXT x97402
f. TXT x97403
f. TXT x97404
f. TXT x97405
f. TXT x97406
f. TXT x97407
$ORIGIN bxx.
f. TXT x97409
f. TXT x97410
f. TXT x97411
f. TXT x97412
f. TXT x97413
f. TXT x97414
f. TXT x97415
f. TXT x97416
f. TXT x97417
f. TXT x97418
f. TXT x97419
f. TXT x97420
f. TXT x97421
f. TXT x97422
f. TXT x97423
f. TXT x97424
f. TXT x97425
f. TXT x97426
f. TXT x97427
f. TXT x97428
f. TXT x97429
f. TXT x97430
f. TXT x97431
f. TXT x97432
f. TXT x97433
f. TXT x97434
f. TXT x97435
f. TXT x97436
f. TXT x97437
f. TXT x97438
f. TXT x97439
f. TXT x97440
f. TXT x97441
f. TXT x97442
f. TXT x97443
f. TXT x97444
f. TXT x97445
f. TXT x97446
f. TXT x97447
f. TXT x97448
f. TXT x97449
f. TXT x97450
f. TXT x97451
f. TXT x97452
f. TXT x97453
f. TXT x97454
f. TXT x97455
f. TXT x97456
f. TXT x97457
f. TXT x97458
f. TXT x97459
f. TXT x97460
f. TXT x97461
f. TXT x97462
f. TXT x97463
f. TXT x97464
f. TXT x97465
f. TXT x97466
f. TXT x97467
f. TXT x97468
f. TXT x97469
f. TXT x97470
f. TXT x97471
0*x0 NS -azz
f. TXT x97473
f. TXT x97474
f. TXT x97475
f. TXT x97476
f. TXT x97477
f. TXT x97478
f. TXT x97479
f. TXT x97480
f. TXT x97481
f. TXT x97482
f. TXT x97483
f. TXT x97484
f. TXT x97485
f. TXT x97486
f. TXT x97487
f. TXT x97488
f. TXT x97489
f. TXT x97490
f. TXT x97491
f. TXT x97492
f. TXT x97493
f. TXT x97494
f. TXT x97495
f. TXT x97496
f. TXT x97497
f. TXT x97498
f. TXT x97499
f. TXT x97500
f. TXT x97501
f. TXT x97502
f. TXT x97503
f. TXT x97504
f. TXT x97505
f. TXT x97506
f. TXT x97507
f. TXT x97508
f. TXT x97509
f. TXT x97510
f. TXT x97511
f. TXT x97512
f. TXT x97513
f. TXT x97514
f. TXT x97515
f. TXT x97516
f. TXT x97517
f. TXT x97518
f. TXT x97519
f. TXT x97520
f. TXT x97521
f. TXT x97522
f. TXT x97523
f. TXT x97524
f. TXT x97525
f. TXT x97526
f. TXT x97527
f. TXT x97528
f. TXT x97529
f. TXT x97530
f. TXT x97531
f. TXT x97532
f. TXT x97533
f. TXT x97534
f. TXT x97535
$TTL 2869
f. TXT x97537
f. TXT x97538
f. TXT x97539
f. TXT x97540
f. TXT x97541
f. TXT x97542
f. TXT x97543
f. TXT x97544
f. TXT x97545
f. TXT x97546
f. TXT x97547
f. TXT x97548
f. TXT x97549
f. TXT x97550
f. TXT x97551
f. TXT x97552
f. TXT x97553
f. TXT x97554
f. TXT x97555
f. TXT x97556
f. TXT x97557
f. TXT x97558
f. TXT x97559
f. TXT x97560
f. TXT x97561
f. TXT x97562
f. TXT x97563
f. TXT x97564
f. TXT x97565
f. TXT x97566
f. TXT x97567
f. TXT x97568
f. TXT x97569
f. TXT x97570
f. TXT x97571
f. TXT x97572
f. TXT x97573
f. TXT x97574
f. TXT x97575
f. TXT x97576
f. TXT x97577
f. TXT x97578
f. TXT x97579
f. TXT x97580
f. TXT x97581
f. TXT x97582
f. TXT x97583
f. TXT x97584
f. TXT x97585
f. TXT x97586
f. TXT x97587
f. TXT x97588
f. TXT x97589
f. TXT x97590
f. TXT x97591
f. TXT x97592
f. TXT x97593
f. TXT x97594
f. TXT x97595
f. TXT x97596
f. TXT x97597
f. TXT x97598
f. TXT x97599
c- NS *c- -ayx *-
f. TXT x97601
f. TXT x97602
f. TXT x97603
f. TXT x97604
f. TXT x97605
f. TXT x97606
f. TXT x97607
f. TXT x97608
f. TXT x97609
f. TXT x97610
f. TXT x97611
f. TXT x97612
f. TXT x97613
f. TXT x97614
f. TXT x97615
f. TXT x97616
f. TXT x97617
f. TXT x97618
f. TXT x97619
f. TXT x97620
f. TXT x97621
f. TXT x97622
f. TXT x97623
f. TXT x97624
f. TXT x97625
f. TXT x97626
f. TXT x97627
f. TXT x97628
f. TXT x97629
f. TXT x97630
f. TXT x97631
f. TXT x97632
f. TXT x97633
f. TXT x97634
f. TXT x97635
f. TXT x97636
f. TXT x97637
f. TXT x97638
f. TXT x97639
f. TXT x97640
f. TXT x97641
f. TXT x97642
f. TXT x97643
f. TXT x97644
f. TXT x97645
f. TXT x97646
f. TXT x97647
f. TXT x97648
f. TXT x97649
f. TXT x97650
f. TXT x97651
f. TXT x97652
f. TXT x97653
f. TXT x97654
f. TXT x97655
f. TXT x97656
f. TXT x97657
f. TXT x97658
f. TXT x97659
f. TXT x97660
f. TXT x97661
f. TXT x97662
f. TXT x97663
$ORIGIN aaby.
f. TXT x97665
f. TXT x97666
f. TXT x97667
f. TXT x97668
f. TXT x97669
f. TXT x97670
f. TXT x97671
f. TXT x97672
f. TXT x97673
f. TXT x97674
f. TXT x97675
f. TXT x97676
f. TXT x97677
f. TXT x97678
f. TXT x97679
f. TXT x97680
f. TXT x97681
f. TXT x97682
f. TXT x97683
f. TXT x97684
f. TXT x97685
f. TXT x97686
f. TXT x97687
f. TXT x97688
f. TXT x97689
f. TXT x97690
f. TXT x97691
f. TXT x97692
f. TXT x97693
f. TXT x97694
f. TXT x97695
f. TXT x97696
f. TXT x97697
f. TXT x97698
f. TXT x97699
f. TXT x97700
f. TXT x97701
f. TXT x97702
f. TXT x97703
f. TXT x97704
f. TXT x97705
f. TXT x97706
f. TXT x97707
f. TXT x97708
f. TXT x97709
f. TXT x97710
f. TXT x97711
f. TXT x97712
f. TXT x97713
f. TXT x97714
f. TXT x97715
f. TXT x97716
f. TXT x97717
f. TXT x97718
f. TXT x97719
f. TXT x97720
f. TXT x97721
f. TXT x97722
f. TXT x97723
f. TXT x97724
f. TXT x97725
f. TXT x97726
f. TXT x97727

f. TXT x97729
f. TXT x97730
f. TXT x97731
f. TXT x97732
f. TXT x97733
f. TXT x97734
f. TXT x97735
f. TXT x97736
f. TXT x97737
f. TXT x97738
f. TXT x97739
f. TXT x97740
f. TXT x97741
f. TXT x97742
f. TXT x97743
f. TXT x97744
f. TXT x97745
f. TXT x97746
f. TXT x97747
f. TXT x97748
f. TXT x97749
f. TXT x97750
f. TXT x97751
f. TXT x97752
f. TXT x97753
f. TXT x97754
f. TXT x97755
f. TXT x97756
f. TXT x97757
f. TXT x97758
f. TXT x97759
f. TXT x97760
f. TXT x97761
f. TXT x97762
f. TXT x97763
f. TXT x97764
f. TXT x97765
f. TXT x97766
f. TXT x97767
f. TXT x97768
f. TXT x97769
f. TXT x97770
f. TXT x97771
f. TXT x97772
f. TXT x97773
f. TXT x97774
f. TXT x97775
f. TXT x97776
f. TXT x97777
f. TXT x97778
f. TXT x97779
f. TXT x97780
f. TXT x97781
f. TXT x97782
f. TXT x97783
f. TXT x97784
f. TXT x97785
f. TXT x97786
f. TXT x97787
f. TXT x97788
f. TXT x97789
f. TXT x97790
f. TXT x97791
a. TXT -x yz** b0z
f. TXT x97793
f. TXT x97794
f. TXT x97795
f. TXT x97796
f. TXT x97797
f. TXT x97798
f. TXT x97799
f. TXT x97800
f. TXT x97801
f. TXT x97802
f. TXT x97803
f. TXT x97804
f. TXT x97805
f. TXT x97806
f. TXT x97807
f. TXT x97808
f. TXT x97809
f. TXT x97810
f. TXT x97811
f. TXT x97812
f. TXT x97813
f. TXT x97814
f. TXT x97815
f. TXT x97816
f. TXT x97817
f. TXT x97818
f. TXT x97819
f. TXT x97820
f. TXT x97821
f. TXT x97822
f. TXT x97823
f. TXT x97824
f. TXT x97825
f. TXT x97826
f. TXT x97827
f. TXT x97828
f. TXT x97829
f. TXT x97830
f. TXT x97831
f. TXT x97832
f. TXT x97833
f. TXT x97834
f. TXT x97835
f. TXT x97836
f. TXT x97837
f. TXT x97838
f. TXT x97839
f. TXT x97840
f. TXT x97841
f. TXT x97842
f. TXT x97843
f. TXT x97844
f. TXT x97845
f. TXT x97846
f. TXT x97847
f. TXT x97848
f. TXT x97849
f. TXT x97850
f. TXT x97851
f. TXT x97852
f. TXT x97853
f. TXT x97854
f. TXT x97855
0-. TXT - c 0b
f. TXT x97857
f. TXT x97858
f. TXT x97859
f. TXT x97860
f. TXT x97861
f. TXT x97862
f. TXT x97863
f. TXT x97864
f. TXT x97865
f. TXT x97866
f. TXT x97867
f. TXT x97868
f. TXT x97869
f. TXT x97870
f. TXT x97871
f. TXT x97872
f. TXT x97873
f. TXT x97874
f. TXT x97875
f. TXT x97876
f. TXT x97877
f. TXT x97878
f. TXT x97879
f. TXT x97880
f. TXT x97881
f. TXT x97882
f. TXT x97883
f. TXT x97884
f. TXT x97885
f. TXT x97886
f. TXT x97887
f. TXT x97888
f. TXT x97889
f. TXT x97890
f. TXT x97891
f. TXT x97892
f. TXT x97893
f. TXT x97894
f. TXT x97895
f. TXT x97896
f. TXT x97897
f. TXT x97898
f. TXT x97899
f. TXT x97900
f. TXT x97901
f. TXT x97902
f. TXT x97903
f. TXT x97904
f. TXT x97905
f. TXT x97906
f. TXT x97907
f. TXT x97908
f. TXT x97909
f. TXT x97910
f. TXT x97911
f. TXT x97912
f. TXT x97913
f. TXT x97914
f. TXT x97915
f. TXT x97916
f. TXT x97917
f. TXT x97918
f. TXT x97919

f. TXT x97921
f. TXT x97922
f. TXT x97923
f. TXT x97924
f. TXT x97925
f. TXT x97926
f. TXT x97927
f. TXT x97928
f. TXT x97929
f. TXT x97930
f. TXT x97931
f. TXT x97932
f. TXT x97933
f. TXT x97934
f. TXT x97935
f. TXT x97936
f. TXT x97937
f. TXT x97938
f. TXT x97939
f. TXT x97940
f. TXT x97941
f. TXT x97942
f. TXT x97943
f. TXT x97944
f. TXT x97945
f. TXT x97946
f. TXT x97947
f. TXT x97948
f. TXT x97949
f. TXT x97950
f. TXT x97951
f. TXT x97952
f. TXT x97953
f. TXT x97954
f. TXT x97955
f. TXT x97956
f. TXT x97957
f. TXT x97958
f. TXT x97959
f. TXT x97960
f. TXT x97961
f. TXT x97962
f. TXT x97963
f. TXT x97964
f. TXT x97965
f. TXT x97966
f. TXT x97967
f. TXT x97968
f. TXT x97969
f. TXT x97970
f. TXT x97971
f. TXT x97972
f. TXT x97973
f. TXT x97974
f. TXT x97975
f. TXT x97976
f. TXT x97977
f. TXT x97978
f. TXT x97979
f. TXT x97980
f. TXT x97981
f. TXT x97982
f. TXT x97983
- TXT a
f. TXT x97985
f. TXT x97986
f. TXT x97987
f. TXT x97988
f. TXT x97989
f. TXT x97990
f. TXT x97991
f. TXT x97992
f. TXT x97993
f. TXT x97994
f. TXT x97995
f. TXT x97996
f. TXT x97997
f. TXT x97998
f. TXT x97999
f. TXT x98000
f. TXT x98001
f. TXT x98002
f. TXT x98003
f. TXT x98004
f. TXT x98005
f. TXT x98006
f. TXT x98007
f. TXT x98008
f. TXT x98009
f. TXT x98010
f. TXT x98011
f. TXT x98012
f. TXT x98013
f. TXT x98014
f. TXT x98015
f. TXT x98016
f. TXT x98017
f. TXT x98018
f. TXT x98019
f. TXT x98020
f. TXT x98021
f. TXT x98022
f. TXT x98023
f. TXT x98024
f. TXT x98025
f. TXT x98026
f. TXT x98027
f. TXT x98028
f. TXT x98029
f. TXT x98030
f. TXT x98031
f. TXT x98032
f. TXT x98033
f. TXT x98034
f. TXT x98035
f. TXT x98036
f. TXT x98037
f. TXT x98038
f. TXT x98039
f. TXT x98040
f. TXT x98041
f. TXT x98042
f. TXT x98043
f. TXT x98044
f. TXT x98045
f. TXT x98046
f. TXT x98047

f. TXT x98049
f. TXT x98050
f. TXT x98051
f. TXT x98052
f. TXT x98053
f. TXT x98054
f. TXT x98055
f. TXT x98056
f. TXT x98057
f. TXT x98058
f. TXT x98059
f. TXT x98060
f. TXT x98061
f. TXT x98062
f. TXT x98063
f. TXT x98064
f. TXT x98065
f. TXT x98066
f. TXT x98067
f. TXT x98068
f. TXT x98069
f. TXT x98070
f. TXT x98071
f. TXT x98072
f. TXT x98073
f. TXT x98074
f. TXT x98075
f. TXT x98076
f. TXT x98077
f. TXT x98078
f. TXT x98079
f. TXT x98080
f. TXT x98081
f. TXT x98082
f. TXT x98083
f. TXT x98084
f. TXT x98085
f. TXT x98086
f. TXT x98087
f. TXT x98088
f. TXT x98089
f. TXT x98090
f. TXT x98091
f. TXT x98092
f. TXT x98093
f. TXT x98094
f. TXT x98095
f. TXT x98096
f. TXT x98097
f. TXT x98098
f. TXT x98099
f. TXT x98100
f. TXT x98101
f. TXT x98102
f. TXT x98103
f. TXT x98104
f. TXT x98105
f. TXT x98106
f. TXT x98107
f. TXT x98108
f. TXT x98109
f. TXT x98110
f. TXT x98111
bx.yyb-. A a zb
f. TXT x98113
f. TXT x98114
f. TXT x98115
f. TXT x98116
f. TXT x98117
f. TXT x98118
f. TXT x98119
f. TXT x98120
f. TXT x98121
f. TXT x98122
f. TXT x98123
f. TXT x98124
f. TXT x98125
f. TXT x98126
f. TXT x98127
f. TXT x98128
f. TXT x98129
f. TXT x98130
f. TXT x98131
f. TXT x98132
f. TXT x98133
f. TXT x98134
f. TXT x98135
f. TXT x98136
f. TXT x98137
f. TXT x98138
f. TXT x98139
f. TXT x98140
f. TXT x98141
f. TXT x98142
f. TXT x98143
f. TXT x98144
f. TXT x98145
f. TXT x98146
f. TXT x98147
f. TXT x98148
f. TXT x98149
f. TXT x98150
f. TXT x98151
f. TXT x98152
f. TXT x98153
f. TXT x98154
f. TXT x98155
f. TXT x98156
f. TXT x98157
f. TXT x98158
f. TXT x98159
f. TXT x98160
f. TXT x98161
f. TXT x98162
f. TXT x98163
f. TXT x98164
f. TXT x98165
f. TXT x98166
f. TXT x98167
f. TXT x98168
f. TXT x98169
f. TXT x98170
f. TXT x98171
f. TXT x98172
f. TXT x98173
f. TXT x98174
f. TXT x98175
 TXT bc by *a0
f. TXT x98177
f. TXT x98178
f. TXT x98179
f. TXT x98180
f. TXT x98181
f. TXT x98182
f. TXT x98183
f. TXT x98184
f. TXT x98185
f. TXT x98186
f. TXT x98187
f. TXT x98188
f. TXT x98189
f. TXT x98190
f. TXT x98191
f. TXT x98192
f. TXT x98193
f. TXT x98194
f. TXT x98195
f. TXT x98196
f. TXT x98197
f. TXT x98198
f. TXT x98199
f. TXT x98200
f. TXT x98201
f. TXT x98202
f. TXT x98203
f. TXT x98204
f. TXT x98205
f. TXT x98206
f. TXT x98207
f. TXT x98208
f. TXT x98209
f. TXT x98210
f. TXT x98211
f. TXT x98212
f. TXT x98213
f. TXT x98214
f. TXT x98215
f. TXT x98216
f. TXT x98217
f. TXT x98218
f. TXT x98219
f. TXT x98220
f. TXT x98221
f. TXT x98222
f. TXT x98223
f. TXT x98224
f. TXT x98225
f. TXT x98226
f. TXT x98227
f. TXT x98228
f. TXT x98229
f. TXT x98230
f. TXT x98231
f. TXT x98232
f. TXT x98233
f. TXT x98234
f. TXT x98235
f. TXT x98236
f. TXT x98237
f. TXT x98238
f. TXT x98239
 TXT yay 00
f. TXT x98241
f. TXT x98242
f. TXT x98243
f. TXT x98244
f. TXT x98245
f. TXT x98246
f. TXT x98247
f. TXT x98248
f. TXT x98249
f. TXT x98250
f. TXT x98251
f. TXT x98252
f. TXT x98253
f. TXT x98254
f. TXT x98255
f. TXT x98256
f. TXT x98257
f. TXT x98258
f. TXT x98259
f. TXT x98260
f. TXT x98261
f. TXT x98262
f. TXT x98263
f. TXT x98264
f. TXT x98265
f. TXT x98266
f. TXT x98267
f. TXT x98268
f. TXT x98269
f. TXT x98270
f. TXT x98271
f. TXT x98272
f. TXT x98273
f. TXT x98274
f. TXT x98275
f. TXT x98276
f. TXT x98277
f. TXT x98278
f. TXT x98279
f. TXT x98280
f. TXT x98281
f. TXT x98282
f. TXT x98283
f. TXT x98284
f. TXT x98285
f. TXT x98286
f. TXT x98287
f. TXT x98288
f. TXT x98289
f. TXT x98290
f. TXT x98291
f. TXT x98292
f. TXT x98293
f. TXT x98294
f. TXT x98295
f. TXT x98296
f. TXT x98297
f. TXT x98298
f. TXT x98299
f. TXT x98300
f. TXT x98301
f. TXT x98302
f. TXT x98303
$TTL 3391772
f. TXT x98305
f. TXT x98306
f. TXT x98307
f. TXT x98308
f. TXT x98309
f. TXT x98310
f. TXT x98311
f. TXT x98312
f. TXT x98313
f. TXT x98314
f. TXT x98315
f. TXT x98316
f. TXT x98317
f. TXT x98318
f. TXT x98319
f. TXT x98320
f. TXT x98321
f. TXT x98322
f. TXT x98323
f. TXT x98324
f. TXT x98325
f. TXT x98326
f. TXT x98327
f. TXT x98328
f. TXT x98329
f. TXT x98330
f. TXT x98331
f. TXT x98332
f. TXT x98333
f. TXT x98334
f. TXT x98335
f. TXT x98336
f. TXT x98337
f. TXT x98338
f. TXT x98339
f. TXT x98340
f. TXT x98341
f. TXT x98342
f. TXT x98343
f. TXT x98344
f. TXT x98345
f. TXT x98346
f. TXT x98347
f. TXT x98348
f. TXT x98349
f. TXT x98350
f. TXT x98351
f. TXT x98352
f. TXT x98353
f. TXT x98354
f. TXT x98355
f. TXT x98356
f. TXT x98357
f. TXT x98358
f. TXT x98359
f. TXT x98360
f. TXT x98361
f. TXT x98362
f. TXT x98363
f. TXT x98364
f. TXT x98365
f. TXT x98366
f. TXT x98367
-a*x.zya. A yacy y-
f. TXT x98369
f. TXT x98370
f. TXT x98371
f. TXT x98372
f. TXT x98373
f. TXT x98374
f. TXT x98375
f. TXT x98376
f. TXT x98377
f. TXT x98378
f. TXT x98379
f. TXT x98380
f. TXT x98381
f. TXT x98382
f. TXT x98383
f. TXT x98384
f. TXT x98385
f. TXT x98386
f. TXT x98387
f. TXT x98388
f. TXT x98389
f. TXT x98390
f. TXT x98391
f. TXT x98392
f. TXT x98393
f. TXT x98394
f. TXT x98395
f. TXT x98396
f. TXT x98397
f. TXT x98398
f. TXT x98399
f. TXT x98400
f. TXT x98401
f. TXT x98402
f. TXT x98403
f. TXT x98404
f. TXT x98405
f. TXT x98406
f. TXT x98407
f. TXT x98408
f. TXT x98409
f. TXT x98410
f. TXT x98411
f. TXT x98412
f. TXT x98413
f. TXT x98414
f. TXT x98415
f. TXT x98416
f. TXT x98417
f. TXT x98418
f. TXT x98419
f. TXT x98420
f. TXT x98421
f. TXT x98422
f. TXT x98423
f. TXT x98424
f. TXT x98425
f. TXT x98426
f. TXT x98427
f. TXT x98428
f. TXT x98429
f. TXT x98430
f. TXT x98431
xzzb.0z. NS -c-
f. TXT x98433
f. TXT x98434
f. TXT x98435
f. TXT x98436
f. TXT x98437
f. TXT x98438
f. TXT x98439
f. TXT x98440
f. TXT x98441
f. TXT x98442
f. TXT x98443
f. TXT x98444
f. TXT x98445
f. TXT x98446
f. TXT x98447
f. TXT x98448
f. TXT x98449
f. TXT x98450
f. TXT x98451
f. TXT x98452
f. TXT x98453
f. TXT x98454
f. TXT x98455
f. TXT x98456
f. TXT x98457
f. TXT x98458
f. TXT x98459
f. TXT x98460
f. TXT x98461
f. TXT x98462
f. TXT x98463
f. TXT x98464
f. TXT x98465
f. TXT x98466
f. TXT x98467
f. TXT x98468
f. TXT x98469
f. TXT x98470
f. TXT x98471
f. TXT x98472
f. TXT x98473
f. TXT x98474
f. TXT x98475
f. TXT x98476
f. TXT x98477
f. TXT x98478
f. TXT x98479
f. TXT x98480
f. TXT x98481
f. TXT x98482
f. TXT x98483
f. TXT x98484
f. TXT x98485
f. TXT x98486
f. TXT x98487
f. TXT x98488
f. TXT x98489
f. TXT x98490
f. TXT x98491
f. TXT x98492
f. TXT x98493
f. TXT x98494
f. TXT x98495
$TTL 3289762
f. TXT x98497
f. TXT x98498
f. TXT x98499
f. TXT x98500
f. TXT x98501
f. TXT x98502
f. TXT x98503
f. TXT x98504
f. TXT x98505
f. TXT x98506
f. TXT x98507
f. TXT x98508
f. TXT x98509
f. TXT x98510
f. TXT x98511
f. TXT x98512
f. TXT x98513
f. TXT x98514
f. TXT x98515
f. TXT x98516
f. TXT x98517
f. TXT x98518
f. TXT x98519
f. TXT x98520
f. TXT x98521
f. TXT x98522
f. TXT x98523
f. TXT x98524
f. TXT x98525
f. TXT x98526
f. TXT x98527
f. TXT x98528
f. TXT x98529
f. TXT x98530
f. TXT x98531
f. TXT x98532
f. TXT x98533
f. TXT x98534
f. TXT x98535
f. TXT x98536
f. TXT x98537
f. TXT x98538
f. TXT x98539
f. TXT x98540
f. TXT x98541
f. TXT x98542
f. TXT x98543
f. TXT x98544
f. TXT x98545
f. TXT x98546
f. TXT x98547
f. TXT x98548
f. TXT x98549
f. TXT x98550
f. TXT x98551
f. TXT x98552
f. TXT x98553
f. TXT x98554
f. TXT x98555
f. TXT x98556
f. TXT x98557
f. TXT x98558
f. TXT x98559
$TTL 3429
f. TXT x98561
f. TXT x98562
f. TXT x98563
f. TXT x98564
f. TXT x98565
f. TXT x98566
f. TXT x98567
f. TXT x98568
f. TXT x98569
f. TXT x98570
f. TXT x98571
f. TXT x98572
f. TXT x98573
f. TXT x98574
f. TXT x98575
f. TXT x98576
f. TXT x98577
f. TXT x98578
f. TXT x98579
f. TXT x98580
f. TXT x98581
f. TXT x98582
f. TXT x98583
f. TXT x98584
f. TXT x98585
f. TXT x98586
f. TXT x98587
f. TXT x98588
f. TXT x98589
f. TXT x98590
f. TXT x98591
f. TXT x98592
f. TXT x98593
f. TXT x98594
f. TXT x98595
f. TXT x98596
f. TXT x98597
f. TXT x98598
f. TXT x98599
f. TXT x98600
f. TXT x98601
f. TXT x98602
f. TXT x98603
f. TXT x98604
f. TXT x98605
f. TXT x98606
f. TXT x98607
f. TXT x98608
f. TXT x98609
f. TXT x98610
f. TXT x98611
f. TXT x98612
f. TXT x98613
f. TXT x98614
f. TXT x98615
f. TXT x98616
f. TXT x98617
f. TXT x98618
f. TXT x98619
f. TXT x98620
f. TXT x98621
f. TXT x98622
f. TXT x98623
x.ca. TXT zzbc zy*
f. TXT x98625
f. TXT x98626
f. TXT x98627
f. TXT x98628
f. TXT x98629
f. TXT x98630
f. TXT x98631
f. TXT x98632
f. TXT x98633
f. TXT x98634
f. TXT x98635
f. TXT x98636
f. TXT x98637
f. TXT x98638
f. TXT x98639
f. TXT x98640
f. TXT x98641
f. TXT x98642
f. TXT x98643
f. TXT x98644
f. TXT x98645
f. TXT x98646
f. TXT x98647
f. TXT x98648
f. TXT x98649
f. TXT x98650
f. TXT x98651
f. TXT x98652
f. TXT x98653
f. TXT x98654
f. TXT x98655
f. TXT x98656
f. TXT x98657
f. TXT x98658
f. TXT x98659
f. TXT x98660
f. TXT x98661
f. TXT x98662
f. TXT x98663
f. TXT x98664
f. TXT x98665
f. TXT x98666
f. TXT x98667
f. TXT x98668
f. TXT x98669
f. TXT x98670
f. TXT x98671
f. TXT x98672
f. TXT x98673
f. TXT x98674
f. TXT x98675
f. TXT x98676
f. TXT x98677
f. TXT x98678
f. TXT x98679
f. TXT x98680
f. TXT x98681
f. TXT x98682
f. TXT x98683
f. TXT x98684
f. TXT x98685
f. TXT x98686
f. TXT x98687
 TXT xya ab vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
f. TXT x98689
f. TXT x98690
f. TXT x98691
f. TXT x98692
f. TXT x98693
f. TXT x98694
f. TXT x98695
f. TXT x98696
f. TXT x98697
f. TXT x98698
f. TXT x98699
f. TXT x98700
f. TXT x98701
f. TXT x98702
f. TXT x98703
f. TXT x98704
f. TXT x98705
f. TXT x98706
f. TXT x98707
f. TXT x98708
f. TXT x98709
f. TXT x98710
f. TXT x98711
f. TXT x98712
f. TXT x98713
f. TXT x98714
f. TXT x98715
f. TXT x98716
f. TXT x98717
f. TXT x98718
f. TXT x98719
f. TXT x98720
f. TXT x98721
f. TXT x98722
f. TXT x98723
f. TXT x98724
f. TXT x98725
f. TXT x98726
f. TXT x98727
f. TXT x98728
f. TXT x98729
f. TXT x98730
f. TXT x98731
f. TXT x98732
f. TXT x98733
f. TXT x98734
f. TXT x98735
f. TXT x98736
f. TXT x98737
f. TXT x98738
f. TXT x98739
f. TXT x98740
f. TXT x98741
f. TXT x98742
f. TXT x98743
f. TXT x98744
f. TXT x98745
f. TXT x98746
f. TXT x98747
f. TXT x98748
f. TXT x98749
f. TXT x98750
f. TXT x98751
-yz.-a. TXT *
f. TXT x98753
f. TXT x98754
f. TXT x98755
f. TXT x98756
f. TXT x98757
f. TXT x98758
f. TXT x98759
f. TXT x98760
f. TXT x98761
f. TXT x98762
f. TXT x98763
f. TXT x98764
f. TXT x98765
f. TXT x98766
f. TXT x98767
f. TXT x98768
f. TXT x98769
f. TXT x98770
f. TXT x98771
f. TXT x98772
f. TXT x98773
f. TXT x98774
f. TXT x98775
f. TXT x98776
f. TXT x98777
f. TXT x98778
f. TXT x98779
f. TXT x98780
f. TXT x98781
f. TXT x98782
f. TXT x98783
f. TXT x98784
f. TXT x98785
f. TXT x98786
f. TXT x98787
f. TXT x98788
f. TXT x98789
f. TXT x98790
f. TXT x98791
f. TXT x98792
f. TXT x98793
f. TXT x98794
f. TXT x98795
f. TXT x98796
f. TXT x98797
f. TXT x98798
f. TXT x98799
f. TXT x98800
f. TXT x98801
f. TXT x98802
f. TXT x98803
f. TXT x98804
f. TXT x98805
f. TXT x98806
f. TXT x98807
f. TXT x98808
f. TXT x98809
f. TXT x98810
f. TXT x98811
f. TXT x98812
f. TXT x98813
f. TXT x98814
f. TXT x98815
@ NS c-
f. TXT x98817
f. TXT x98818
f. TXT x98819
f. TXT x98820
f. TXT x98821
f. TXT x98822
f. TXT x98823
f. TXT x98824
f. TXT x98825
f. TXT x98826
f. TXT x98827
f. TXT x98828
f. TXT x98829
f. TXT x98830
f. TXT x98831
f. TXT x98832
f. TXT x98833
f. TXT x98834
f. TXT x98835
f. TXT x98836
f. TXT x98837
f. TXT x98838
f. TXT x98839
f. TXT x98840
f. TXT x98841
f. TXT x98842
f. TXT x98843
f. TXT x98844
f. TXT x98845
f. TXT x98846
f. TXT x98847
f. TXT x98848
f. TXT x98849
f. TXT x98850
f. TXT x98851
f. TXT x98852
f. TXT x98853
f. TXT x98854
f. TXT x98855
f. TXT x98856
f. TXT x98857
f. TXT x98858
f. TXT x98859
f. TXT x98860
f. TXT x98861
f. TXT x98862
f. TXT x98863
f. TXT x98864
f. TXT x98865
f. TXT x98866
f. TXT x98867
f. TXT x98868
f. TXT x98869
f. TXT x98870
f. TXT x98871
f. TXT x98872
f. TXT x98873
f. TXT x98874
f. TXT x98875
f. TXT x98876
f. TXT x98877
f. TXT x98878
f. TXT x98879
@ A xa c
f. TXT x98881
f. TXT x98882
f. TXT x98883
f. TXT x98884
f. TXT x98885
f. TXT x98886
f. TXT x98887
f. TXT x98888
f. TXT x98889
f. TXT x98890
f. TXT x98891
f. TXT x98892
f. TXT x98893
f. TXT x98894
f. TXT x98895
f. TXT x98896
f. TXT x98897
f. TXT x98898
f. TXT x98899
f. TXT x98900
f. TXT x98901
f. TXT x98902
f. TXT x98903
f. TXT x98904
f. TXT x98905
f. TXT x98906
f. TXT x98907
f. TXT x98908
f. TXT x98909
f. TXT x98910
f. TXT x98911
f. TXT x98912
f. TXT x98913
f. TXT x98914
f. TXT x98915
f. TXT x98916
f. TXT x98917
f. TXT x98918
f. TXT x98919
f. TXT x98920
f. TXT x98921
f. TXT x98922
f. TXT x98923
f. TXT x98924
f. TXT x98925
f. TXT x98926
f. TXT x98927
f. TXT x98928
f. TXT x98929
f. TXT x98930
f. TXT x98931
f. TXT x98932
f. TXT x98933
f. TXT x98934
f. TXT x98935
f. TXT x98936
f. TXT x98937
f. TXT x98938
f. TXT x98939
f. TXT x98940
f. TXT x98941
f. TXT x98942
f. TXT x98943
@ A -yc *c0
f. TXT x98945
f. TXT x98946
f. TXT x98947
f. TXT x98948
f. TXT x98949
f. TXT x98950
f. TXT x98951
f. TXT x98952
f. TXT x98953
f. TXT x98954
f. TXT x98955
f. TXT x98956
f. TXT x98957
f. TXT x98958
f. TXT x98959
f. TXT x98960
f. TXT x98961
f. TXT x98962
f. TXT x98963
f. TXT x98964
f. TXT x98965
f. TXT x98966
f. TXT x98967
f. TXT x98968
f. TXT x98969
f. TXT x98970
f. TXT x98971
f. TXT x98972
f. TXT x98973
f. TXT x98974
f. TXT x98975
f. TXT x98976
f. TXT x98977
f. TXT x98978
f. TXT x98979
f. TXT x98980
f. TXT x98981
f. TXT x98982
f. TXT x98983
f. TXT x98984
f. TXT x98985
f. TXT x98986
f. TXT x98987
f. TXT x98988
f. TXT x98989
f. TXT x98990
f. TXT x98991
f. TXT x98992
f. TXT x98993
f. TXT x98994
f. TXT x98995
f. TXT x98996
f. TXT x98997
f. TXT x98998
f. TXT x98999
f. TXT x99000
f. TXT x99001
f. TXT x99002
f. TXT x99003
f. TXT x99004
f. TXT x99005
f. TXT x99006
f. TXT x99007
cz- NS y-0 z xa
f. TXT x99009
f. TXT x99010
f. TXT x99011
f. TXT x99012
f. TXT x99013
f. TXT x99014
f. TXT x99015
f. TXT x99016
f. TXT x99017
f. TXT x99018
f. TXT x99019
f. TXT x99020
f. TXT x99021
f. TXT x99022
f. TXT x99023
f. TXT x99024
f. TXT x99025
f. TXT x99026
f. TXT x99027
f. TXT x99028
f. TXT x99029
f. TXT x99030
f. TXT x99031
f. TXT x99032
f. TXT x99033
f. TXT x99034
f. TXT x99035
f. TXT x99036
f. TXT x99037
f. TXT x99038
f. TXT x99039
f. TXT x99040
f. TXT x99041
f. TXT x99042
f. TXT x99043
f. TXT x99044
f. TXT x99045
f. TXT x99046
f. TXT x99047
f. TXT x99048
f. TXT x99049
f. TXT x99050
f. TXT x99051
f. TXT x99052
f. TXT x99053
f. TXT x99054
f. TXT x99055
f. TXT x99056
f. TXT x99057
f. TXT x99058
f. TXT x99059
f. TXT x99060
f. TXT x99061
f. TXT x99062
f. TXT x99063
f. TXT x99064
f. TXT x99065
f. TXT x99066
f. TXT x99067
f. TXT x99068
f. TXT x99069
f. TXT x99070
f. TXT x99071
; ay0
f. TXT x99073
f. TXT x99074
f. TXT x99075
f. TXT x99076
f. TXT x99077
f. TXT x99078
f. TXT x99079
f. TXT x99080
f. TXT x99081
f. TXT x99082
f. TXT x99083
f. TXT x99084
f. TXT x99085
f. TXT x99086
f. TXT x99087
f. TXT x99088
f. TXT x99089
f. TXT x99090
f. TXT x99091
f. TXT x99092
f. TXT x99093
f. TXT x99094
f. TXT x99095
f. TXT x99096
f. TXT x99097
f. TXT x99098
f. TXT x99099
f. TXT x99100
f. TXT x99101
f. TXT x99102
f. TXT x99103
f. TXT x99104
f. TXT x99105
f. TXT x99106
f. TXT x99107
f. TXT x99108
f. TXT x99109
f. TXT x99110
f. TXT x99111
f. TXT x99112
f. TXT x99113
f. TXT x99114
f. TXT x99115
f. TXT x99116
f. TXT x99117
f. TXT x99118
f. TXT x99119
f. TXT x99120
f. TXT x99121
f. TXT x99122
f. TXT x99123
f. TXT x99124
f. TXT x99125
f. TXT x99126
f. TXT x99127
f. TXT x99128
f. TXT x99129
f. TXT x99130
f. TXT x99131
f. TXT x99132
f. TXT x99133
f. TXT x99134
f. TXT x99135
; 0-x
f. TXT x99137
f. TXT x99138
f. TXT x99139
f. TXT x99140
f. TXT x99141
f. TXT x99142
f. TXT x99143
f. TXT x99144
f. TXT x99145
f. TXT x99146
f. TXT x99147
f. TXT x99148
f. TXT x99149
f. TXT x99150
f. TXT x99151
f. TXT x99152
f. TXT x99153
f. TXT x99154
f. TXT x99155
f. TXT x99156
f. TXT x99157
f. TXT x99158
f. TXT x99159
f. TXT x99160
f. TXT x99161
f. TXT x99162
f. TXT x99163
f. TXT x99164
f. TXT x99165
f. TXT x99166
f. TXT x99167
f. TXT x99168
f. TXT x99169
f. TXT x99170
f. TXT x99171
f. TXT x99172
f. TXT x99173
f. TXT x99174
f. TXT x99175
f. TXT x99176
f. TXT x99177
f. TXT x99178
f. TXT x99179
f. TXT x99180
f. TXT x99181
f. TXT x99182
f. TXT x99183
f. TXT x99184
f. TXT x99185
f. TXT x99186
f. TXT x99187
f. TXT x99188
f. TXT x99189
f. TXT x99190
f. TXT x99191
f. TXT x99192
f. TXT x99193
f. TXT x99194
f. TXT x99195
f. TXT x99196
f. TXT x99197
f. TXT x99198
f. TXT x99199
 TXT c0 z vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv
f. TXT x99201
f. TXT x99202
f. TXT x99203
f. TXT x99204
f. TXT x99205
f. TXT x99206
f. TXT x99207
f. TXT x99208
f. TXT x99209
f. TXT x99210
f. TXT x99211
f. TXT x99212
f. TXT x99213
f. TXT x99214
f. TXT x99215
f. TXT x99216
f. TXT x99217
f. TXT x99218
f. TXT x99219
f. TXT x99220
f. TXT x99221
f. TXT x99222
f. TXT x99223
f. TXT x99224
f. TXT x99225
f. TXT x99226
f. TXT x99227
f. TXT x99228
f. TXT x99229
f. TXT x99230
f. TXT x99231
f. TXT x99232
f. TXT x99233
f. TXT x99234
f. TXT x99235
f. TXT x99236
f. TXT x99237
f. TXT x99238
f. TXT x99239
f. TXT x99240
f. TXT x99241
f. TXT x99242
f. TXT x99243
f. TXT x99244
f. TXT x99245
f. TXT x99246
f. TXT x99247
f. TXT x99248
f. TXT x99249
f. TXT x99250
f. TXT x99251
f. TXT x99252
f. TXT x99253
f. TXT x99254
f. TXT x99255
f. TXT x99256
f. TXT x99257
f. TXT x99258
f. TXT x99259
f. TXT x99260
f. TXT x99261
f. TXT x99262
f. TXT x99263
@ TXT *-- *y
f. TXT x99265
f. TXT x99266
f. TXT x99267
f. TXT x99268
f. TXT x99269
f. TXT x99270
f. TXT x99271
f. TXT x99272
f. TXT x99273
f. TXT x99274
f. TXT x99275
f. TXT x99276
f. TXT x99277
f. TXT x99278
f. TXT x99279
f. TXT x99280
f. TXT x99281
f. TXT x99282
f. TXT x99283
f. TXT x99284
f. TXT x99285
f. TXT x99286
f. TXT x99287
f. TXT x99288
f. TXT x99289
f. TXT x99290
f. TXT x99291
f. TXT x99292
f. TXT x99293
f. TXT x99294
f. TXT x99295
f. TXT x99296
f. TXT x99297
f. TXT x99298
f. TXT x99299
f. TXT x99300
f. TXT x99301
f. TXT x99302
f. TXT x99303
f. TXT x99304
f. TXT x99305
f. TXT x99306
f. TXT x99307
f. TXT x99308
f. TXT x99309
f. TXT x99310
f. TXT x99311
f. TXT x99312
f. TXT x99313
f. TXT x99314
f. TXT x99315
f. TXT x99316
f. TXT x99317
f. TXT x99318
f. TXT x99319
f. TXT x99320
f. TXT x99321
f. TXT x99322
f. TXT x99323
f. TXT x99324
f. TXT x99325
f. TXT x99326
f. TXT x99327
 TXT * 0ybc ca
f. TXT x99329
f. TXT x99330
f. TXT x99331
f. TXT x99332
f. TXT x99333
f. TXT x99334
f. TXT x99335
f. TXT x99336
f. TXT x99337
f. TXT x99338
f. TXT x99339
f. TXT x99340
f. TXT x99341
f. TXT x99342
f. TXT x99343
f. TXT x99344
f. TXT x99345
f. TXT x99346
f. TXT x99347
f. TXT x99348
f. TXT x99349
f. TXT x99350
f. TXT x99351
f. TXT x99352
f. TXT x99353
f. TXT x99354
f. TXT x99355
f. TXT x99356
f. TXT x99357
f. TXT x99358
f. TXT x99359
f. TXT x99360
f. TXT x99361
f. TXT x99362
f. TXT x99363
f. TXT x99364
f. TXT x99365
f. TXT x99366
f. TXT x99367
f. TXT x99368
f. TXT x99369
f. TXT x99370
f. TXT x99371
f. TXT x99372
f. TXT x99373
f. TXT x99374
f. TXT x99375
f. TXT x99376
f. TXT x99377
f. TXT x99378
f. TXT x99379
f. TXT x99380
f. TXT x99381
f. TXT x99382
f. TXT x99383
f. TXT x99384
f. TXT x99385
f. TXT x99386
f. TXT x99387
f. TXT x99388
f. TXT x99389
f. TXT x99390
f. TXT x99391
$TTL 298
f. TXT x99393
f. TXT x99394
f. TXT x99395
f. TXT x99396
f. TXT x99397
f. TXT x99398
f. TXT x99399
f. TXT x99400
f. TXT x99401
f. TXT x99402
f. TXT x99403
f. TXT x99404
f. TXT x99405
f. TXT x99406
f. TXT x99407
f. TXT x99408
f. TXT x99409
f. TXT x99410
f. TXT x99411
f. TXT x99412
f. TXT x99413
f. TXT x99414
f. TXT x99415
f. TXT x99416
f. TXT x99417
f. TXT x99418
f. TXT x99419
f. TXT x99420
f. TXT x99421
f. TXT x99422
f. TXT x99423
f. TXT x99424
f. TXT x99425
f. TXT x99426
f. TXT x99427
f. TXT x99428
f. TXT x99429
f. TXT x99430
f. TXT x99431
f. TXT x99432
f. TXT x99433
f. TXT x99434
f. TXT x99435
f. TXT x99436
f. TXT x99437
f. TXT x99438
f. TXT x99439
f. TXT x99440
f. TXT x99441
f. TXT x99442
f. TXT x99443
f. TXT x99444
f. TXT x99445
f. TXT x99446
f. TXT x99447
f. TXT x99448
f. TXT x99449
f. TXT x99450
f. TXT x99451
f. TXT x99452
f. TXT x99453
f. TXT x99454
f. TXT x99455
 NS ax0 z
f. TXT x99457
f. TXT x99458
f. TXT x99459
f. TXT x99460
f. TXT x99461
f. TXT x99462
f. TXT x99463
f. TXT x99464
f. TXT x99465
f. TXT x99466
f. TXT x99467
f. TXT x99468
f. TXT x99469
f. TXT x99470
f. TXT x99471
f. TXT x99472
f. TXT x99473
f. TXT x99474
f. TXT x99475
f. TXT x99476
f. TXT x99477
f. TXT x99478
f. TXT x99479
f. TXT x99480
f. TXT x99481
f. TXT x99482
f. TXT x99483
f. TXT x99484
f. TXT x99485
f. TXT x99486
f. TXT x99487
f. TXT x99488
f. TXT x99489
f. TXT x99490
f. TXT x99491
f. TXT x99492
f. TXT x99493
f. TXT x99494
f. TXT x99495
f. TXT x99496
f. TXT x99497
f. TXT x99498
f. TXT x99499
f. TXT x99500
f. TXT x99501
f. TXT x99502
f. TXT x99503
f. TXT x99504
f. TXT x99505
f. TXT x99506
f. TXT x99507
f. TXT x99508
f. TXT x99509
f. TXT x99510
f. TXT x99511
f. TXT x99512
f. TXT x99513
f. TXT x99514
f. TXT x99515
f. TXT x99516
f. TXT x99517
f. TXT x99518
f. TXT x99519
@ NS z x y*a
f. TXT x99521
f. TXT x99522
f. TXT x99523
f. TXT x99524
f. TXT x99525
f. TXT x99526
f. TXT x99527
f. TXT x99528
f. TXT x99529
f. TXT x99530
f. TXT x99531
f. TXT x99532
f. TXT x99533
f. TXT x99534
f. TXT x99535
f. TXT x99536
f. TXT x99537
f. TXT x99538
f. TXT x99539
f. TXT x99540
f. TXT x99541
f. TXT x99542
f. TXT x99543
f. TXT x99544
f. TXT x99545
f. TXT x99546
f. TXT x99547
f. TXT x99548
f. TXT x99549
f. TXT x99550
f. TXT x99551
f. TXT x99552
f. TXT x99553
f. TXT x99554
f. TXT x99555
f. TXT x99556
f. TXT x99557
f. TXT x99558
f. TXT x99559
f. TXT x99560
f. TXT x99561
f. TXT x99562
f. TXT x99563
f. TXT x99564
f. TXT x99565
f. TXT x99566
f. TXT x99567
f. TXT x99568
f. TXT x99569
f. TXT x99570
f. TXT x99571
f. TXT x99572
f. TXT x99573
f. TXT x99574
f. TXT x99575
f. TXT x99576
f. TXT x99577
f. TXT x99578
f. TXT x99579
f. TXT x99580
f. TXT x99581
f. TXT x99582
f. TXT x99583

f. TXT x99585
f. TXT x99586
f. TXT x99587
f. TXT x99588
f. TXT x99589
f. TXT x99590
f. TXT x99591
f. TXT x99592
f. TXT x99593
f. TXT x99594
f. TXT x99595
f. TXT x99596
f. TXT x99597
f. TXT x99598
f. TXT x99599
f. TXT x99600
f. TXT x99601
f. TXT x99602
f. TXT x99603
f. TXT x99604
f. TXT x99605
f. TXT x99606
f. TXT x99607
f. TXT x99608
f. TXT x99609
f. TXT x99610
f. TXT x99611
f. TXT x99612
f. TXT x99613
f. TXT x99614
f. TXT x99615
f. TXT x99616
f. TXT x99617
f. TXT x99618
f. TXT x99619
f. TXT x99620
f. TXT x99621
f. TXT x99622
f. TXT x99623
f. TXT x99624
f. TXT x99625
f. TXT x99626
f. TXT x99627
f. TXT x99628
f. TXT x99629
f. TXT x99630
f. TXT x99631
f. TXT x99632
f. TXT x99633
f. TXT x99634
f. TXT x99635
f. TXT x99636
f. TXT x99637
f. TXT x99638
f. TXT x99639
f. TXT x99640
f. TXT x99641
f. TXT x99642
f. TXT x99643
f. TXT x99644
f. TXT x99645
f. TXT x99646
f. TXT x99647
; za
f. TXT x99649
f. TXT x99650
f. TXT x99651
f. TXT x99652
f. TXT x99653
f. TXT x99654
f. TXT x99655
f. TXT x99656
f. TXT x99657
f. TXT x99658
f. TXT x99659
f. TXT x99660
f. TXT x99661
f. TXT x99662
f. TXT x99663
f. TXT x99664
f. TXT x99665
f. TXT x99666
f. TXT x99667
f. TXT x99668
f. TXT x99669
f. TXT x99670
f. TXT x99671
f. TXT x99672
f. TXT x99673
f. TXT x99674
f. TXT x99675
f. TXT x99676
f. TXT x99677
f. TXT x99678
f. TXT x99679
f. TXT x99680
f. TXT x99681
f. TXT x99682
f. TXT x99683
f. TXT x99684
f. TXT x99685
f. TXT x99686
f. TXT x99687
f. TXT x99688
f. TXT x99689
f. TXT x99690
f. TXT x99691
f. TXT x99692
f. TXT x99693
f. TXT x99694
f. TXT x99695
f. TXT x99696
f. TXT x99697
f. TXT x99698
f. TXT x99699
f. TXT x99700
f. TXT x99701
f. TXT x99702
f. TXT x99703
f. TXT x99704
f. TXT x99705
f. TXT x99706
f. TXT x99707
f. TXT x99708
f. TXT x99709
f. TXT x99710
f. TXT x99711
xaz A x c*z
f. TXT x99713
f. TXT x99714
f. TXT x99715
f. TXT x99716
f. TXT x99717
f. TXT x99718
f. TXT x99719
f. TXT x99720
f. TXT x99721
f. TXT x99722
f. TXT x99723
f. TXT x99724
f. TXT x99725
f. TXT x99726
f. TXT x99727
f. TXT x99728
f. TXT x99729
f. TXT x99730
f. TXT x99731
f. TXT x99732
f. TXT x99733
f. TXT x99734
f. TXT x99735
f. TXT x99736
f. TXT x99737
f. TXT x99738
f. TXT x99739
f. TXT x99740
f. TXT x99741
f. TXT x99742
f. TXT x99743
f. TXT x99744
f. TXT x99745
f. TXT x99746
f. TXT x99747
f. TXT x99748
f. TXT x99749
f. TXT x99750
f. TXT x99751
f. TXT x99752
f. TXT x99753
f. TXT x99754
f. TXT x99755
f. TXT x99756
f. TXT x99757
f. TXT x99758
f. TXT x99759
f. TXT x99760
f. TXT x99761
f. TXT x99762
f. TXT x99763
f. TXT x99764
f. TXT x99765
f. TXT x99766
f. TXT x99767
f. TXT x99768
f. TXT x99769
f. TXT x99770
f. TXT x99771
f. TXT x99772
f. TXT x99773
f. TXT x99774
f. TXT x99775
-- NS 0y0* b yzzz
f. TXT x99777
f. TXT x99778
f. TXT x99779
f. TXT x99780
f. TXT x99781
f. TXT x99782
f. TXT x99783
f. TXT x99784
f. TXT x99785
f. TXT x99786
f. TXT x99787
f. TXT x99788
f. TXT x99789
f. TXT x99790
f. TXT x99791
f. TXT x99792
f. TXT x99793
f. TXT x99794
f. TXT x99795
f. TXT x99796
f. TXT x99797
f. TXT x99798
f. TXT x99799
f. TXT x99800
f. TXT x99801
f. TXT x99802
f. TXT x99803
f. TXT x99804
f. TXT x99805
f. TXT x99806
f. TXT x99807
f. TXT x99808
f. TXT x99809
f. TXT x99810
f. TXT x99811
f. TXT x99812
f. TXT x99813
f. TXT x99814
f. TXT x99815
f. TXT x99816
f. TXT x99817
f. TXT x99818
f. TXT x99819
f. TXT x99820
f. TXT x99821
f. TXT x99822
f. TXT x99823
f. TXT x99824
f. TXT x99825
f. TXT x99826
f. TXT x99827
f. TXT x99828
f. TXT x99829
f. TXT x99830
f. TXT x99831
f. TXT x99832
f. TXT x99833
f. TXT x99834
f. TXT x99835
f. TXT x99836
f. TXT x99837
f. TXT x99838
f. TXT x99839
cy-. A -a -c*
f. TXT x99841
f. TXT x99842
f. TXT x99843
f. TXT x99844
f. TXT x99845
f. TXT x99846
f. TXT x99847
f. TXT x99848
f. TXT x99849
f. TXT x99850
f. TXT x99851
f. TXT x99852
f. TXT x99853
f. TXT x99854
f. TXT x99855
f. TXT x99856
f. TXT x99857
f. TXT x99858
f. TXT x99859
f. TXT x99860
f. TXT x99861
f. TXT x99862
f. TXT x99863
f. TXT x99864
f. TXT x99865
f. TXT x99866
f. TXT x99867
f. TXT x99868
f. TXT x99869
f. TXT x99870
f. TXT x99871
f. TXT x99872
f. TXT x99873
f. TXT x99874
f. TXT x99875
f. TXT x99876
f. TXT x99877
f. TXT x99878
f. TXT x99879
f. TXT x99880
f. TXT x99881
f. TXT x99882
f. TXT x99883
f. TXT x99884
f. TXT x99885
f. TXT x99886
f. TXT x99887
f. TXT x99888
f. TXT x99889
f. TXT x99890
f. TXT x99891
f. TXT x99892
f. TXT x99893
f. TXT x99894
f. TXT x99895
f. TXT x99896
f. TXT x99897
f. TXT x99898
f. TXT x99899
f. TXT x99900
f. TXT x99901
f. TXT x99902
f. TXT x99903
 TXT - a
f. TXT x99905
f. TXT x99906
f. TXT x99907
f. TXT x99908
f. TXT x99909
f. TXT x99910
f. TXT x99911
f. TXT x99912
f. TXT x99913
f. TXT x99914
f. TXT x99915
f. TXT x99916
f. TXT x99917
f. TXT x99918
f. TXT x99919
f. TXT x99920
f. TXT x99921
f. TXT x99922
f. TXT x99923
f. TXT x99924
f. TXT x99925
f. TXT x99926
f. TXT x99927
f. TXT x99928
f. TXT x99929
f. TXT x99930
f. TXT x99931
f. TXT x99932
f. TXT x99933
f. TXT x99934
f. TXT x99935
f. TXT x99936
f. TXT x99937
f. TXT x99938
f. TXT x99939
f. TXT x99940
f. TXT x99941
f. TXT x99942
f. TXT x99943
f. TXT x99944
f. TXT x99945
f. TXT x99946
f. TXT x99947
f. TXT x99948
f. TXT x99949
f. TXT x99950
f. TXT x99951
f. TXT x99952
f. TXT x99953
f. TXT x99954
f. TXT x99955
f. TXT x99956
f. TXT x99957
f. TXT x99958
f. TXT x99959
f. TXT x99960
f. TXT x99961
f. TXT x99962
f. TXT x99963
f. TXT x99964
f. TXT x99965
f. TXT x99966
f. TXT x99967
@ A *bbz 0-a0 b*x
f. TXT x99969
f. TXT x99970
f. TXT x99971
f. TXT x99972
f. TXT x99973
f. TXT x99974
f. TXT x99975
f. TXT x99976
f. TXT x99977
f. TXT x99978
f. TXT x99979
f. TXT x99980
f. TXT x99981
f. TXT x99982
f. TXT x99983
f. TXT x99984
f. TXT x99985
f. TXT x99986
f. TXT x99987
f. TXT x99988
f. TXT x99989
f. TXT x99990
f. TXT x99991
f. TXT x99992
f. TXT x99993
f. TXT x99994
f. TXT x99995
f. TXT x99996
f. TXT x99997
f. TXT x99998
f. TXT x99999
f. TXT x100000
f. TXT x100001
f. TXT x100002
f. TXT x100003
f. TXT x100004
f. TXT x100005
f. TXT x100006
f. TXT x100007
f. TXT x100008
f. TXT x100009
f. TXT x100010
f. TXT x100011
f. TXT x100012
f. TXT x100013
f. TXT x100014
f. TXT x100015
f. TXT x100016
f. TXT x100017
f. TXT x100018
f. TXT x100019
f. TXT x100020
f. TXT x100021
f. TXT x100022
f. TXT x100023
f. TXT x100024
f. TXT x100025
f. TXT x100026
f. TXT x100027
f. TXT x100028
f. TXT x100029
f. TXT x100030
f. TXT x100031
$TTL 4294967295
f. TXT x100033
f. TXT x100034
f. TXT x100035
f. TXT x100036
f. TXT x100037
f. TXT x100038
