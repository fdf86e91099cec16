import subprocess
prop={'that are followed by text':'C16','part of link text, and empty':'C06','that follow a tab in an indented':'C01','recognize closing tags':'C03','made of tildes could':'C02','a block quote after a footnote':'C02','a line turns into another kind':'C08','escape the indented text of footnotes':'C02','blank lines at the start of a block quote':'C02','in front of the definitions':'C11','keep empty attributes':'C13','that looks like a footnote definition stays':'C17',"in the labels of references":"C11","line ending of every hard break":"C11","every tag that starts":"C03",'keep trailing hashes':'C13','keep whitespace at the end of the last':'C04','no trailing space after an empty':'C11','only wrap paragraphs':'C03','recognise an escaped':'C06','write backslash escapes into code':'C15','wrapping and reflowing':'C08','footnote\'s indentation':'C07','wrap inside of link dest':'C06','if it only consists of hashes':'C13','write nested lists':'C12','empty setext':'C11','custom attributes':'C13','angle brackets around link destinations with control':'C06','only treat lines':'C15','list separator comment':'C14','lengthen code fences':'C04','end the paragraph of a tight':'C03','find the destination of a link':'C06','look like footnote definitions':'C17','keep white space and trailing backslashes':'C06','slice into':'C01','lose parts of link reference':'C06','nested HTML blocks with CRLF':'C16','duplicate the blank':'C02','escaped brackets of reference':'C06','caret and backslash':'C06','keep leading whitespace of nested HTML':'C16','multi-line code spans of footnotes':'C15','metadata blocks and attributes':'C16','strip block quote markers':'C06','keep lists tight':'C18','leave backslashes or tabs':'C08','hard breaks with tabs':'C08','escape angle brackets when':'C06','would start an HTML block':'C03','from starting lists':'C03','pad table cells':'C09'}
out=[]
for l in subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()[1:]:
    h,s=l.split(' ',1)
    p=[v for k,v in prop.items() if k in s]
    if len(p)<1: print('??',l); continue
    out.append('fixed: property=%s %s %s'%(p[0],h,s.replace('fix: ','defect repaired as: ')))
import os
f='/verif/known_findings.txt'
old=open(f).read().split('\n') if os.path.exists(f) else []
keep=[l for l in old if not l.startswith('fixed:') and l]
if not keep: keep=['# Genuine defects of markdown-fmt that were recorded rather than repaired (known:), and repaired ones (fixed:).',
'# known: property=ID id=KEY codes=CODES example=JSON [w=N] [r=N] input=/REGEX that the whole failing document matches/ -- what fails']
open(f,'w').write('\n'.join(keep+out)+'\n')
