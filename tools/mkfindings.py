import subprocess
M=dict(zip("02cf577 5035d85 c8a29b2 87d17fe ac1daad b163455 1db0075 4d0ac41 39fc5c4 08be38a 64cbf96 172e78e 13d1a13 65e3db4 adc89cd 4ecb071 76ea51d c254c59 e73a20e d70aee5 3d5f1ce c7eef2b 251e38e 6b10a7a 81535e4 86178bc ecb24a1 f5b4789 5fa4be2 cbffa74 08f43ca f2e8312 d9b1200 95e6b04 8ab233c a8adfd0 634669c 1c72cd3 1814887 4233ac7 5529cff 69a8932 2da4460 e30ba0e 009f893 82cfca1".split(),
"P02 P14 P07 P06 P01 P01 P08 P13 P22 P13 P09 P15 P14 P17 P06 P10 P11 P12 P14 P08 P07 P07 P08 P08 P08 P09 P10 P10 P12 P09 P11 P14 P14 P06 P15 P11 P17 P06 P25 P18 P13 P13 P15 P20 P19 P23".split()))
M.update({"6506ab6":"P25","57143a8":"P25","aaf3c42":"P13","e4f8fef":"P13","bb2bb6b":"P16","e9af5b2":"P06"})
W={"02cf577":"after a look-ahead across a line break all positions were on the line before",
"5035d85":"declarations after a look-ahead went into a copy of the context",
"c8a29b2":"`x as T` was rejected","87d17fe":"a string without its closing quote never ended","ac1daad":"a rune which starts no token crashed the parser","b163455":"a NUL rune ended the text","1db0075":"an assembler block without END never ended","4d0ac41":"`unit u interface` was accepted","39fc5c4":"a missing program file crashed","08be38a":"`var x: begin` was accepted as a type","64cbf96":"some types ended on their last token","172e78e":"U.T referred to any T","13d1a13":"a type with the name of an outer forward class was taken for it","65e3db4":"the unit's map had the forward class","adc89cd":"type A = class(A) with a property never returned"}
f=open('/verif/known_findings.txt','w')
f.write("""# Findings of the checks on akm/tparser. A "finding:" line is a defect that is not repaired: its check prints a
# KNOWN-FINDING line for it and stays quiet on exactly that input. A "fixed:" line suppresses nothing.
finding: property=P02 a text whose very first character is a line feed: that line break is not counted, so that every position of the text is one line too low (a test of the repository, TestNewLine of runes, expects it)
""")
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','fd1462a..HEAD'],universal_newlines=True).splitlines():
    h,s=l.split(' ',1); 
    f.write("fixed: property=%s %s %s\n"%(M[h],h,W.get(h) or "was not so before: "+s[5:]))
