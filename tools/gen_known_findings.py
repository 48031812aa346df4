import subprocess
m={ # subject fragment -> property
"use the value of an option or selector":"C06","terminate literal text patterns":"C05","accept every documented start":"C06","return to the command container":"C07","reject stray grammar":"C06","a selector may not branch to the main":"C07","use the selector 'other' when":"C12","do not reuse the numbers":"C14","decompose the documented ISO":"C11","make the date_time option 'calendar'":"C10","english_a_or_an panicked":"C16","cache literal strings under":"C17","format a string that was cached":"C17","a string found by fallback":"C17","string_exact_match returns only":"C21","match whole subtags":"C20","identifier_details covers":"C22","provide the contributors of each":"C22","language ratios are numbers":"C22","schema verification detects missing":"C23","ignore Sqlite3 files having":"C24","find the localised messages of tree":"C25","numbers of error messages":"C25","supply the placeholder values":"C25","placeholders of the strings":"C25","find the localised messages of the lexer":"C25","name of the type of registry":"C25","format error messages that contain":"C25","left-to-right direction":"C26","script codes of Yi":"C26","reject month or day zero":"C11","reject text after the day":"C11","name the column when an INTEGER":"C23","no panic for an unsupported":"C24","name the missing column":"C23","script codes of Gurung":"C26","the Ethiopic script":"C26","name the part and the named":"C25","no line break":"C25","name the column and the table":"C25","name the option, the keyword":"C29","one instance per language tag":"C27","no stack overflow for long chains":"C07","that contain the separator":"C17","the feature icu_extended provides locales":"C30","option calendar keeps the other extensions":"C30"}
print("# Genuine defects found by the checks. Every one of them is repaired in /repo; nothing is suppressed by this file.")
for l in subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','ee98991..HEAD'],capture_output=True,text=True).stdout.splitlines():
    h,s=l.strip().split(' ',1)
    k=[v for f,v in m.items() if f in s]; assert len(k)==1,(s,k)
    print(f"fixed: property={k[0]} {h} {s[5:]}")
