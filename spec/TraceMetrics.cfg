SPECIFICATION TraceSpec
CONSTANTS NAdd <- DAdd NSub <- DSub NMul <- DMul NDiv <- DDiv NInt <- DInt
