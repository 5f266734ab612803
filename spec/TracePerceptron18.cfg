SPECIFICATION TraceSpec
CONSTANTS Level = 18
 NAdd <- DAdd NSub <- DSub NMul <- DMul NDiv <- DDiv NInt <- DInt Act <- TAct Der <- TDer
