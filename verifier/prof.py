import cProfile,pstats,sys
import driver
r=driver.Run('/tmp/ssa.json')
pr=cProfile.Profile(); pr.enable()
r.verify(sys.argv[1])
pr.disable()
import logic as L
print(L.Stats.queries,L.Stats.cached,L.Stats.time,L.Stats.by_stage,L.Stats.unknown)
pstats.Stats(pr).sort_stats('tottime').print_stats(28)
