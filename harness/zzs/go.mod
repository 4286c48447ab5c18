module zzs.local

go 1.19
