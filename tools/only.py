"""only.py PROPERTY GENERATOR VARIANT SHARDS N LIMIT: one family of schedules only (for try.py with CMD)."""
import sys; sys.path.insert(0,'checks')
import lib,plans,os
prop,gen,variant,shards,n,limit=sys.argv[1:7]
r=lib.Run(prop,'quick',int(os.environ.get("VERIF_SEED","1")))
r.jobs(plans.conc_jobs(r,gen,variant,int(shards),int(n),int(limit)))
print(r.finish()); r.close(); os._exit(0)
