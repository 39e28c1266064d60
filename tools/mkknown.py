import subprocess,re
m={"balance the parentheses":"C09","N units ago":"C07","N units later":"C07","recognise christmas":"C10","black friday":"C10","recognise a month and day":"C11","last day of a range":"C11","carry the date when":"C07","unit abbreviations that":"C07","unit abbreviation \"mins\"":"C08","spelled-out numbers":"C08","unknown words":"C01","month names":"C11","uninitialised":"C05","trailing space":"C14","swallow the space":"C14","leaves the calendar as no date":"C15","combine date and time units":"C07","half an hour":"C07","overnight range":"C14","do not repeat the time":"C14","range names the later":"C14","neither drop":"C14","shift both ends":"C14","9pm - 1am":"C12","HHMM":"C12","twelve hours":"C12","directly before a weekday":"C09","year of an ISO date":"C14","zone offsets that leave":"C15","take the space before":"C14","place a month name":"C14","range of days before":"C11","nearest February 29":"C11","accept 24:00":"C15","seconds of the reference in \"next":"C08","print the usage":"C15","count with double":"C17","give no date for more":"C15","in half a day":"C07","keep the time of day for a count of no":"C07","offset of one leads the other":"C15","after a range of one day":"C15"}
out=["# Genuine defects of legend855/chrono-cpp that the properties brought up.","# fixed: entries are repaired in /repo and suppress nothing. There is no open (known:) entry."]
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines():
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    p=[v for k,v in m.items() if k in s]
    assert len(p)>=1,(l,p)
    out.append("fixed: property=%s %s %s"%(p[0],h,s[5:]))
open("known_findings.txt","w").write("\n".join(out)+"\n")
