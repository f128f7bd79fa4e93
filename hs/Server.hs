{-# LANGUAGE ForeignFunctionInterface #-}
-- Drives the Haskell bindings on behalf of the C25 harness: one request per
-- call on stdin, one reply on stdout (see src/c25.cpp for the layout).
module Main (main) where

import Control.Exception (SomeException, evaluate, try)
import Control.Monad (forM, forM_, when)
import Data.Int (Int32)
import Data.IORef
import qualified Data.Map.Strict as M
import qualified Data.Text as T
import qualified Data.Vector.Storable as V
import Data.Word (Word32, Word64, Word8)
import Foreign.ForeignPtr (mallocForeignPtrBytes, withForeignPtr)
import Foreign.Marshal.Alloc (alloca, allocaBytes, free)
import Foreign.Marshal.Utils (with)
import Foreign.Ptr (Ptr, castPtr, nullPtr, plusPtr)
import Foreign.Storable (peek, peekByteOff, poke, pokeByteOff)
import System.Exit (exitSuccess)
import System.IO
import System.Mem (performMajorGC)

import FlatCV

foreign import ccall unsafe "shim_live" shimLive :: IO Word64
foreign import ccall unsafe "shim_watch" shimWatch :: Word64 -> IO ()
foreign import ccall unsafe "shim_watched" shimWatched :: IO Word64
foreign import ccall unsafe "shim_bad" shimBad :: IO Word64

type Vec = V.Vector Word8

data Val = I Word64 | D Double

data Req = Req
  { op :: Int, slot :: Int, inSlot :: Int, pad :: Int
  , ia :: Int -> Int, da :: Int -> Double
  , s1 :: T.Text, s2 :: T.Text, marks :: [Point2D], input :: Vec }

recvInto :: Ptr Word8 -> Int -> IO ()
recvInto p n = when (n > 0) $ do
  k <- hGetBuf stdin p n
  when (k /= n) exitSuccess

recvVec :: Int -> Int -> IO Vec
recvVec padding n = do
  fp <- mallocForeignPtrBytes (padding + n + padding)
  withForeignPtr fp $ \p -> do
    forM_ ([0 .. padding - 1] ++ [padding + n .. 2 * padding + n - 1]) $ \i -> pokeByteOff p i (0xEE :: Word8)
    recvInto (p `plusPtr` padding) n
  -- a slice of a larger vector when there is padding
  return $ V.slice padding n (V.unsafeFromForeignPtr0 fp (n + 2 * padding))

recvText :: Int -> IO T.Text
recvText n = do
  v <- recvVec 0 n
  return $ T.pack (map (toEnum . fromIntegral) (V.toList v))

header :: Int
header = 4 * 16 + 8 * 18

main :: IO ()
main = do
  hSetBinaryMode stdin True
  hSetBinaryMode stdout True
  hSetBuffering stdin (BlockBuffering (Just 65536))
  hSetBuffering stdout (BlockBuffering (Just 65536))
  slots <- newIORef M.empty
  inputs <- newIORef M.empty
  loop slots inputs

loop :: IORef (M.Map Int Vec) -> IORef (M.Map Int Vec) -> IO ()
loop slots inputs = do
  allocaBytes header $ \h -> do
    recvInto h header
    ints <- forM [0 .. 15] $ \i -> fmap fromIntegral (peekByteOff h (4 * i) :: IO Int32)
    ds <- forM [0 .. 17] $ \i -> peekByteOff h (64 + 8 * i) :: IO Double
    let is = V.fromList (ints :: [Int])
        dv = V.fromList ds
        i k = is V.! k
    t1 <- recvText (i 10)
    t2 <- recvText (i 11)
    ms <- forM [1 .. i 12] $ \_ -> allocaBytes 16 $ \p -> recvInto p 16 >> peek (castPtr p)
    v <- recvVec (i 3) (i 13)
    let r0 = Req (i 0) (i 1) (i 2) (i 3) (\k -> i (4 + k)) (dv V.!) t1 t2 ms v
    r <- if inSlot r0 < 0 then return r0 else do
           -- the input of an earlier call, shared
           known <- readIORef inputs
           case M.lookup (inSlot r0) known of
             Just w | V.null v -> return r0 { input = w }
             _ -> modifyIORef' inputs (M.insert (inSlot r0) v) >> return r0
    case op r of
      1000 -> do
        m <- readIORef slots
        case M.lookup (slot r) m of
          Nothing -> reply 1 [] V.empty
          Just w -> reply 0 [] w
      1001 -> modifyIORef' slots (M.delete (slot r)) >> reply 0 [] V.empty
      1002 -> performMajorGC >> performMajorGC >> reply 0 [] V.empty
      1003 -> do
        n <- shimLive
        k <- shimWatched
        b <- shimBad
        reply 0 [I n, I k, I b] V.empty
      1004 -> shimWatch (fromIntegral (ia r 0)) >> reply 0 [] V.empty
      1005 -> do -- the shared input
        m <- readIORef inputs
        reply 0 [] (M.findWithDefault V.empty (inSlot r) m)
      1006 -> writeIORef slots M.empty >> writeIORef inputs M.empty >> reply 0 [] V.empty
      _ -> do
        res <- try (dispatch r >>= \(a, b) -> evaluate b >>= \b' -> return (a, b')) :: IO (Either SomeException ([Val], Vec))
        case res of
          Left e -> e `seq` reply 1 [] (V.fromList (map (fromIntegral . fromEnum) (take 200 (show e))))
          Right (meta, out) -> do
            when (slot r >= 0) $ modifyIORef' slots (M.insert (slot r) out)
            -- part of the result, where the rest is known not to be readable
            reply 0 meta (if i 14 > 0 then V.take (i 14) out else out)
  loop slots inputs

reply :: Word32 -> [Val] -> Vec -> IO ()
reply st meta out = do
  let n = length meta
  allocaBytes (12 + 8 * n) $ \p -> do
    pokeByteOff p 0 st
    pokeByteOff p 4 (fromIntegral n :: Word32)
    pokeByteOff p 8 (fromIntegral (V.length out) :: Word32)
    forM_ (zip [0 ..] meta) $ \(k, x) -> case x of
      I w -> pokeByteOff p (12 + 8 * k) w
      D d -> pokeByteOff p (12 + 8 * k) d
    hPutBuf stdout p (12 + 8 * n)
  V.unsafeWith out $ \p -> hPutBuf stdout p (V.length out)
  hFlush stdout

one :: IO Vec -> IO ([Val], Vec)
one = fmap (\v -> ([], v))

sized :: (Integral a, Integral b) => IO (a, b, Vec) -> IO ([Val], Vec)
sized = fmap (\(w, h, v) -> ([I (fromIntegral w), I (fromIntegral h)], v))

-- a pointer-based wrapper on a copy of the input; n bytes of result
ptr :: Int -> Vec -> (Ptr Word8 -> IO (Ptr Word8)) -> IO ([Val], Vec)
ptr n v f = V.unsafeWith v $ \p -> do
  q <- f p
  when (q == nullPtr) $ ioError (userError "null")
  out <- V.generateM n (\k -> peekByteOff q k)
  free q
  return ([], out)

cornersOf :: (Int -> Double) -> Int -> Corners
cornersOf d k = Corners (d k) (d (k + 1)) (d (k + 2)) (d (k + 3)) (d (k + 4)) (d (k + 5)) (d (k + 6)) (d (k + 7))

cornerVals :: Corners -> [Val]
cornerVals c = map (\f -> D (f c)) [tlX, tlY, trX, trY, brX, brY, blX, blY]

matrixOf :: (Int -> Double) -> Matrix3x3
matrixOf d = Matrix3x3 (d 0) (d 1) (d 2) (d 3) (d 4) (d 5) (d 6) (d 7) (d 8)

matrixVals :: Matrix3x3 -> [Val]
matrixVals m = map (\f -> D (f m)) [m00, m01, m02, m10, m11, m12, m20, m21, m22]

textVec :: T.Text -> Vec
textVec = V.fromList . map (fromIntegral . fromEnum) . T.unpack

dispatch :: Req -> IO ([Val], Vec)
dispatch r = case op r of
  0 -> one $ grayscale w h v
  1 -> one $ grayscaleStretch w h v
  2 -> one $ rgbaToGrayscale w h v
  3 -> one $ singleToMultichannel w h v
  4 -> one $ gaussianBlur w h (d 0) v
  5 -> one $ otsuThreshold w h (b 2) v
  6 -> one $ bwSmart w h (b 2) v
  7 -> one $ applyGlobalThreshold (u 2) (fromIntegral (ia r 3)) v
  8 -> one $ sobelEdgeDetection w h (u 2) v
  9 -> one $ foerstnerCorner w h (d 0) v
  10 -> one $ binaryDilationDisk sw sh (s 2) v
  11 -> one $ binaryErosionDisk sw sh (s 2) v
  12 -> one $ binaryClosingDisk sw sh (s 2) v
  13 -> one $ binaryOpeningDisk sw sh (s 2) v
  14 -> one $ flipX w h v
  15 -> one $ flipY w h v
  16 -> one $ transpose w h v
  17 -> one $ transverse w h v
  18 -> one $ rotate90CW w h v
  19 -> one $ rotate180 w h v
  20 -> one $ rotate270CW w h v
  21 -> sized $ resize w h (d 0) (d 1) v
  22 -> one $ crop w h (u 5) (fromIntegral (ia r 2)) (u 3) (u 4) (fromIntegral (truncate (d 0) :: Int)) v
  23 -> sized $ trim sw sh (u 2) v
  24 -> sized $ trimThreshold sw sh (u 2) (d 0) v
  25 -> do
    m <- calculatePerspectiveTransform (cornersOf d 0) (cornersOf d 8)
    return (matrixVals m, V.empty)
  26 -> one $ applyMatrix3x3 sw sh (s 2) (s 3) (matrixOf d) v
  27 -> do
    c <- detectCorners sw sh v
    return (cornerVals c, V.empty)
  28 -> one $ extractDocument w h (u 2) (u 3) v
  29 -> sized $ extractDocumentAuto w h v
  30 -> one $ drawCircle w h (u 2) (s1 r) (d 0) (d 1) (d 2) v
  31 -> one $ drawDisk w h (u 2) (s1 r) (d 0) (d 1) (d 2) v
  32 -> sized $ addBorder w h (u 2) (s1 r) (u 3) v
  33 -> sized $ generateHistogram w h (u 2) v
  34 -> one $ watershedSegmentation w h (marks r) (b 2) v
  35 -> do
    o <- getExifOrientation (T.unpack (s1 r))
    return ([I (fromIntegral o)], V.empty)
  36 -> do
    (x, y, z) <- parseHexColor (s1 r)
    return ([I (fromIntegral x), I (fromIntegral y), I (fromIntegral z)], V.empty)
  37 -> one $ convertToBinary sw sh (s1 r) (s2 r) v
  -- pointer-based
  50 -> ptr n4 v (grayscalePtr w h)
  51 -> ptr n4 v (grayscaleStretchPtr w h)
  52 -> ptr n1 v (rgbaToGrayscalePtr w h)
  53 -> ptr n4 v (singleToMultichannelPtr w h)
  54 -> ptr n4 v (gaussianBlurPtr w h (d 0))
  55 -> ptr n4 v (otsuThresholdPtr w h (b 2))
  56 -> ptr n4 v (bwSmartPtr w h (b 2))
  57 -> with (cornersOf d 0) $ \p -> with (cornersOf d 8) $ \q -> do
    m <- calculatePerspectiveTransformPtr p q
    x <- peek m
    free m
    return (matrixVals x, V.empty)
  58 -> with (matrixOf d) $ \m -> ptr (max 0 (ia r 2 * ia r 3 * 4)) v (\p -> applyMatrix3x3Ptr sw sh p (s 2) (s 3) m)
  59 -> V.unsafeWith v $ \p -> do
    c <- detectCornersPtr p sw sh
    when (c == nullPtr) $ ioError (userError "null")
    x <- peek c
    free c
    return (cornerVals x, V.empty)
  60 -> ptr n4 v (flipXPtr w h)
  61 -> ptr n4 v (flipYPtr w h)
  62 -> ptr n4 v (transposePtr w h)
  63 -> ptr n4 v (rotate90CWPtr w h)
  64 -> ptr n4 v (rotate180Ptr w h)
  65 -> ptr n4 v (rotate270CWPtr w h)
  -- the representation of the types
  70 -> alloca $ \p -> poke p (cornersOf d 0) >> peek p >>= \c -> return (cornerVals c, V.empty)
  71 -> alloca $ \p -> poke p (matrixOf d) >> peek p >>= \m -> return (matrixVals m, V.empty)
  72 -> return ([], textVec (prettyShowCorners (cornersOf d 0)))
  73 -> return ([], textVec (prettyShowMatrix3x3 (matrixOf d)))
  74 -> do -- equality and the record of an image
    let x = Image w h 4 v
        y = Image w h 4 (V.fromList (V.toList v))
    return ([I (if x == y then 1 else 0), I (fromIntegral (imageWidth x)), I (fromIntegral (imageHeight x)), I (fromIntegral (imageChannels x))], imageData x)
  75 -> allocaBytes 16 $ \p -> poke p (Point2D (d 0) (d 1)) >> do
    x <- peekByteOff p 0
    y <- peekByteOff p 8
    q <- peek p
    return ([D x, D y, D (pointX q), D (pointY q)], V.empty)
  _ -> ioError (userError "unknown request")
  where
    v = input r
    w = u 0
    h = u 1
    sw = s 0
    sh = s 1
    u :: Int -> Word32
    u k = fromIntegral (ia r k)
    s :: Int -> Int32
    s k = fromIntegral (ia r k)
    b k = ia r k /= 0
    d = da r
    n1 = fromIntegral w * fromIntegral h
    n4 = n1 * 4
