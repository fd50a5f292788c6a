From 95b6a01948cf4382be2573fa88746a9f73aa9116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:38 +0000
Subject: [PATCH 01/60] fix: polyline translate() and moveTo() left a stale
 cached centroid

---
 homog2d.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 69d091c..62e041c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5427,7 +5427,7 @@ SegVec<SV,FPT>::getPointAt( FPT2 dist ) const
 		return ppts.first;
 	else
 		return ppts.second;
-}
+}
 
 //------------------------------------------------------------------
 /// Returns two parallel segments to the current one in a pair
@@ -6418,6 +6418,7 @@ Also use the areCollinear() function
 		HOMOG2D_CHECK_IS_NUMBER( TY );
 		for( auto& pt: _plinevec )
 			pt.translate( dx, dy );
+		_attribs.setBad();
 	}
 
 /// Translate Polyline, using a pair of numerical values
@@ -6449,6 +6450,7 @@ Also use the areCollinear() function
 		auto dy = new_org.getY() - getPoint(0).getY();
 		for( auto& pt: _plinevec )
 			pt.translate( dx, dy );
+		_attribs.setBad();
 	}
 
 /// Set from vector/array/list of points (discards previous points)
-- 
2.43.0


From 6adc05983aebc05afbae1f1a21d4e32c2104817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 02/60] fix: matrix comparison ignored changes made by set(),
 value(), getRaw() or an assignment

---
 homog2d.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 62e041c..e2897e5 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1492,7 +1492,7 @@ public:
 		_isNormalized = other._isNormalized;
 	}
 
-	matrix_t<FPT>&       getRaw()       { return _mdata; }
+	matrix_t<FPT>&       getRaw()       { _isNormalized = false; return _mdata; }   // because we send the non-const reference
 	const matrix_t<FPT>& getRaw() const { return _mdata; }
 
 	template<typename T>
@@ -1502,6 +1502,7 @@ public:
 			HOMOG2D_CHECK_ROW_COL;
 		#endif
 		_mdata[r][c] = v;
+		_isNormalized = false;
 	}
 
 	const FPT& value( size_t r, size_t c ) const
@@ -1516,6 +1517,7 @@ public:
 		#ifndef HOMOG2D_NOCHECKS
 			HOMOG2D_CHECK_ROW_COL;
 		#endif
+		_isNormalized = false;  // because we send the non-const reference
 		return _mdata[r][c];
 	}
 
-- 
2.43.0


From 0b16170126fb5380f5e6eecc01f04658381d45aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 03/60] fix: a line was transformed by an outdated inverse
 after the matrix was changed through its base class

---
 homog2d.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index e2897e5..cb2413f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2038,6 +2038,7 @@ private:
 private:
 	mutable bool _hasChanged   = true;
 	mutable std::unique_ptr<detail::Matrix_<FPT>> _hmt; ///< used to store \f$ H^{-1} \f$, but only if required
+	mutable detail::matrix_t<FPT> _hmtSource{};         ///< the matrix from which \c _hmt was computed
 
 	friend std::ostream& operator << ( std::ostream& f, const Hmatrix_& h )
 	{
@@ -9687,11 +9688,12 @@ operator * ( const Homogr_<U>& h, const Line2d_<T>& in )
 		h._hasChanged = true;
 	}
 
-	if( h._hasChanged )                  // if homography has changed, recompute inverse and transposed
-	{
-		auto hi = h;
-		auto mat_inv = hi.inverse().transpose();
+	if( h._hasChanged || h._hmtSource != h.getRaw() )   // if homography has changed, recompute inverse and transposed
+	{                                                   // (cells can be changed through the base class)
+		detail::Matrix_<U> mat_inv( h );
+		mat_inv.inverse().transpose();
 		*h._hmt = mat_inv;
+		h._hmtSource = h.getRaw();
 		h._hasChanged = false;
 	}
 
-- 
2.43.0


From 3a64c20f60ddd5ef192a41c6a53e273962f2d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 04/60] fix: a homography assigned from an OpenCV matrix kept
 the cached state of the previous one

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index cb2413f..6383284 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11690,6 +11690,8 @@ Hmatrix_<W,FPT>::operator = ( const cv::Mat& mat )
 	size_t i=0;
 
 	auto& data = detail::Matrix_<FPT>::_mdata;
+	detail::Matrix_<FPT>::_isNormalized = false;
+	_hasChanged = true;
 	switch( type )
 	{
 		case CV_64F:
-- 
2.43.0


From 6c872ceb42e56a4e589dc68a76366cb838031e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 05/60] fix: a refused Homogr inverse() modified the matrix

---
 homog2d.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6383284..a9f445c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1817,8 +1817,11 @@ Thus some assert can get triggered elsewhere.
 /// Inverse matrix
 	Hmatrix_& inverse()
 	{
-		detail::Matrix_<FPT>::inverse();
-		normalize();
+		Hmatrix_ out( *this );
+		static_cast<detail::Matrix_<FPT>&>( out ).inverse();
+		out.normalize();         // can throw, so we do all this on a copy
+		*this = out;
+		detail::Matrix_<FPT>::_isNormalized = true;
 		return *this;
 	}
 
-- 
2.43.0


From 163e775b85eee0e211b23e2bef3d0f8559f8efb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 06/60] fix: the unary minus operator of OSegment reversed its
 operand

---
 homog2d.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index a9f445c..a480954 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4958,11 +4958,10 @@ Please note that the source (points) floating-point type is lost
 ///@{
 
 /// Reverse oriented segment
-	SegVec<SV,FPT> operator - ()
+	SegVec<SV,FPT> operator - () const
 	{
 		static_assert( !std::is_same_v<SV,typ::IsSegment>, "cannot reverse non-oriented segment" );
-		std::swap( _ptS1, _ptS2 );
-		return *this;
+		return SegVec<SV,FPT>( _ptS2, _ptS1 );
 	}
 
 /// Setter
-- 
2.43.0


From 1c49ed1c121e44797e166a198b6e082b76ec0980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 07/60] fix: a Segment built from an OSegment did not have its
 points in order

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index a480954..4c3e033 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4948,7 +4948,7 @@ Please note that the source (points) floating-point type is lost
 			( std::is_same_v<SV,typ::IsOSeg> && std::is_same_v<SV2,typ::IsOSeg> ) ),
 			"Cannot build a OSegment from a Segment"
 		);
-		if constexpr( std::is_same_v<SV2,typ::IsSegment> )
+		if constexpr( std::is_same_v<SV,typ::IsSegment> )
 			priv::fix_order( _ptS1, _ptS2 );
 	}
 
-- 
2.43.0


From bb334b0b99317703d4d5feef60cbdd1db30dd42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 08/60] fix: getExtended() did not build for an OSegment

---
 homog2d.hpp | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4c3e033..5c9494d 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5484,22 +5484,12 @@ template<typename SV, typename FPT>
 SegVec<SV,FPT>
 SegVec<SV,FPT>::getExtended() const
 {
-	Segment_<HOMOG2D_INUMTYPE> seg(*this); // to get highest precision
-	auto li = seg.getLine();
-	auto rad1 = seg.length();
-	auto c1 = Circle_<HOMOG2D_INUMTYPE>( _ptS1, rad1 );
-	auto c2 = Circle_<HOMOG2D_INUMTYPE>( _ptS2, rad1 );
-
-	auto int1 = li.intersects( c1 );
-	auto int2 = li.intersects( c2 );
-	assert( int1() );
-	assert( int2() );
-	auto ppt1 = int1.get();
-	auto ppt2 = int2.get();
-
-	return Segment_<FPT>(
-		ppt1.first,
-		ppt2.second
+	Point2d_<HOMOG2D_INUMTYPE> p1( _ptS1 ); // to get highest precision
+	Point2d_<HOMOG2D_INUMTYPE> p2( _ptS2 );
+
+	return SegVec<SV,FPT>(
+		Point2d_<HOMOG2D_INUMTYPE>( 2*p1.getX()-p2.getX(), 2*p1.getY()-p2.getY() ),
+		Point2d_<HOMOG2D_INUMTYPE>( 2*p2.getX()-p1.getX(), 2*p2.getY()-p1.getY() )
 	);
 }
 
-- 
2.43.0


From 62b306f302f080b36095213e7f3d673d6d3c80d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 09/60] fix: member function getExtremePoint() of polylines did
 not build

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 5c9494d..072632f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7113,7 +7113,7 @@ template<typename PLT,typename FPT>
 Point2d_<FPT>
 PolylineBase<PLT,FPT>::getExtremePoint( CardDir dir ) const
 {
-	return getExtremePoint( dir, *this );
+	return h2d::getExtremePoint( dir, *this );
 }
 
 /// Return Bottom-most point of Polyline
-- 
2.43.0


From 5ba3ae9bbbead33358cbc2c600270a1e2e1148b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 10/60] fix: FRect moveTo() did not build

---
 homog2d.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 072632f..f458bf0 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2870,18 +2870,17 @@ public:
 		HOMOG2D_CHECK_IS_NUMBER( TX );
 		HOMOG2D_CHECK_IS_NUMBER( TY );
 
-		auto s = size();
-		_ptR1.set(x,y);
-		_ptR2.set( _ptR1.getX() + s.first, _ptR1.getY() + s.second );
+		moveTo( Point2d_<FPT>( x, y ) );
 	}
 
 /// Move FRect to other location, given by \c pt
 	template<typename T1>
 	void moveTo( const Point2d_<T1>& pt )
 	{
-		auto s = size();
+		auto w = width();
+		auto h = height();
 		_ptR1 = pt;
-		_ptR2.set( _ptR1.getX() + s.first, _ptR1.getY() + s.second );
+		_ptR2.set( _ptR1.getX() + w, _ptR1.getY() + h );
 	}
 
 	template<typename FPT2>
-- 
2.43.0


From 57166aa958a8e22bc970c17deed322dab8747148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 11/60] fix: transforming an OSegment lost its orientation

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index f458bf0..8337705 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9696,13 +9696,13 @@ operator * ( const Homogr_<U>& h, const Line2d_<T>& in )
 
 /// Apply homography to a Segment
 template<typename SV,typename FPT1,typename FPT2>
-Segment_<FPT1>
+base::SegVec<SV,FPT1>
 operator * ( const Homogr_<FPT1>& h, const base::SegVec<SV,FPT2>& seg )
 {
 	const auto& pts = seg.getPts();
 	Point2d_<FPT1> pt1 = h * pts.first;
 	Point2d_<FPT1> pt2 = h * pts.second;
-	return base::SegVec<SV,FPT2>( pt1, pt2 );
+	return base::SegVec<SV,FPT1>( pt1, pt2 );
 }
 
 /// Apply homography to a Polyline
-- 
2.43.0


From 22df36140a6809b159afc0eb83843fd532223af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 12/60] fix: minimum enclosing circle of three points, of
 collinear points, of a list, and after a failure

---
 homog2d.hpp | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 8337705..6c9f360 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5623,6 +5623,16 @@ Circle_<FPT>::set(
 //------------------------------------------------------------------
 namespace priv {
 
+/// Free Function to check whether a circle encloses the given point (including points on the circle)
+template<typename FPT1,typename PT>
+bool is_enclosed(
+	const Circle_<FPT1>& circ,
+	const PT&            pt
+)
+{
+	return pt.distTo( circ.center() ) <= circ.radius() + thr::nullDistance();
+}
+
 /// Free Function to check whether a circle encloses the given points
 template<typename FPT1,typename PT>
 bool is_valid_circle(
@@ -5631,7 +5641,7 @@ bool is_valid_circle(
 )
 {
 	for( const auto& pt: pts )
-		if( !pt.isInside( circ ) )
+		if( !is_enclosed( circ, pt ) )
 			return false;
 	return true;
 }
@@ -5648,10 +5658,14 @@ template<typename T>
 Circle_<HOMOG2D_INUMTYPE>
 Circle_<FPT>::p_min_circle_trivial( const std::vector<T>& P ) const
 {
-	if( P.empty() )
-		return Circle_<HOMOG2D_INUMTYPE>(0.,0.,0.); // dummy circle of null radius
-	if( P.size() == 1 )
-		return Circle_<HOMOG2D_INUMTYPE>( P[0], 0. );
+	if( P.size() < 2 )
+	{
+		Circle_<HOMOG2D_INUMTYPE> c;
+		c.radius() = ( P.empty() ? -1. : 0. );  // a circle of radius -1 encloses no point
+		if( P.size() == 1 )
+			c.center() = P[0];
+		return c;
+	}
 	if( P.size() == 2 )
 		return Circle_<HOMOG2D_INUMTYPE>( P[0], P[1] );
 
@@ -5663,6 +5677,11 @@ Circle_<FPT>::p_min_circle_trivial( const std::vector<T>& P ) const
 			if( priv::is_valid_circle( c, P ) )
 				return c;
 		}
+	if( areCollinear( P[0], P[1], P[2] ) )
+	{
+		auto pts = priv::getLargestDistancePoints( P[0], P[1], P[2] );
+		return Circle_<HOMOG2D_INUMTYPE>( pts[0], pts[1] );
+	}
 	return Circle_<HOMOG2D_INUMTYPE>( P[0], P[1], P[2] ); // circle from 3 points
 }
 
@@ -5698,7 +5717,7 @@ Circle_<FPT>::p_WelzlHelper(
 
 	// Get the MEC circle d from the set of points P - {p}
 	auto d = p_WelzlHelper( P, R, n - 1 );
-	if( p.isInside( d ) )
+	if( priv::is_enclosed( d, p ) )
 			return d;
 
 	// Otherwise, must be on the boundary of the MEC
@@ -5733,26 +5752,12 @@ Circle_<FPT>::set( const T& pts )
 	if( pts.size() < 2 )
 		HOMOG2D_THROW_ERROR_1( "unable to build a circle from a single point" );
 
-	if( pts.size() == 2 )
-	{
-		set( pts[0], pts[1] );
-		return;
-	}
-
-	if( pts.size() == 3 ) // todo: convert pts to HOMOG2D_INUMTYPE
-	{
-		set( pts[0], pts[1], pts[2] );
-		return;
-	}
-
 	std::vector<Point2d_<HOMOG2D_INUMTYPE>> P_copy( std::begin(pts), std::end(pts) );
 //	std::random_shuffle( P_copy.begin(), P_copy.end() ); // ? check: what happens if removed?
 	std::vector<Point2d_<HOMOG2D_INUMTYPE>> R;
 
-	h2d::thr::doNotCheckRadius() = true;
 	auto cir = p_WelzlHelper( P_copy, R, P_copy.size() );
 	set( cir.center(), cir.radius() );
-	h2d::thr::doNotCheckRadius() = false;
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From d1cadba0f8a29425ebaa13e3759c1ad9876d29b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 13/60] fix: minimize() kept redundant points on segments
 having an angle close to +/-PI

---
 homog2d.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6c9f360..fcf23fa 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7336,7 +7336,10 @@ PolylineBase<PLT,FPT>::p_minimizePL( PolylineBase<PLT,FPT>& pl, size_t istart, s
 		auto a1 = std::atan2( vx1, vy1 );
 		auto a2 = std::atan2( vx2, vy2 );
 
-		if( homog2d_abs(a1-a2) < thr::nullAngleValue() )
+		HOMOG2D_INUMTYPE da = homog2d_abs(a1-a2);
+		if( da > M_PI )          // angles around +PI and -PI are close together
+			da = 2.*M_PI - da;
+		if( da < thr::nullAngleValue() )
 			ptset.push_back( i );
 	}
 
-- 
2.43.0


From 21c7616ac25be788e06d95df8e062b06e98491e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 14/60] fix: isConvex() depended on the direction of the
 polygon when it has aligned points

---
 homog2d.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index fcf23fa..6744507 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7450,13 +7450,16 @@ PolylineBase<PLT,FPT>::isConvex() const
 		const auto& pt0 = vpts[ i==0?vpts.size()-1:i-1 ];
 		const auto& pt1 = vpts[ i ];
 		const auto& pt2 = vpts[ i==vpts.size()-1?0:i+1 ];
-		auto dx1 = pt1.getX() - pt0.getX();
-		auto dy1 = pt1.getY() - pt0.getY();
+		auto dx1 = static_cast<HOMOG2D_INUMTYPE>( pt1.getX() ) - pt0.getX();
+		auto dy1 = static_cast<HOMOG2D_INUMTYPE>( pt1.getY() ) - pt0.getY();
 
-		auto dx2 = pt2.getX() - pt1.getX();
-		auto dy2 = pt2.getY() - pt1.getY();
+		auto dx2 = static_cast<HOMOG2D_INUMTYPE>( pt2.getX() ) - pt1.getX();
+		auto dy2 = static_cast<HOMOG2D_INUMTYPE>( pt2.getY() ) - pt1.getY();
 
 		auto crossproduct = dx1*dy2 - dy1*dx2;
+		if( homog2d_abs(crossproduct) <= thr::nullOrthogDistance() * (dx1*dx1+dy1*dy1+dx2*dx2+dy2*dy2) )
+			continue;                            // aligned points: no turn here
+
 		if( sign == 0 )                          // initial sign value
 			sign = (crossproduct>0 ? +1 : -1);
 		else
-- 
2.43.0


From bd75111693acd400aa9b2a1d3d02dcd93fdb9995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 15/60] fix: centroid of a polygon of float points was computed
 in float

---
 homog2d.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6744507..ea76edc 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7540,10 +7540,10 @@ base::PolylineBase<PLT,FPT>::centroid() const
 			auto j = (i == size()-1 ? 0 : i+1);
 			const auto& pt1 = _plinevec[i];
 			const auto& pt2 = _plinevec[j];
-			auto x1 = pt1.getX();
-			auto x2 = pt2.getX();
-			auto y1 = pt1.getY();
-			auto y2 = pt2.getY();
+			HOMOG2D_INUMTYPE x1 = pt1.getX();
+			HOMOG2D_INUMTYPE x2 = pt2.getX();
+			HOMOG2D_INUMTYPE y1 = pt1.getY();
+			HOMOG2D_INUMTYPE y2 = pt2.getY();
 
 			auto prod = x1*y2 - x2*y1;
 			cx += (x1+x2) * prod;
-- 
2.43.0


From 3c284380835a7d9053cb4b600d27ce1c6cb77ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 16/60] fix: rotate() of a polyline about one of its own points
 used the point after having moved it

---
 homog2d.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index ea76edc..9cc664f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7269,9 +7269,11 @@ template<typename FPT2>
 void
 PolylineBase<PLT,FPT>::rotate( Rotate rot, const Point2d_<FPT2>& refpt )
 {
-	translate( -refpt.getX(), -refpt.getY() );
+	auto dx = refpt.getX();   // copies, because refpt can be one of our points
+	auto dy = refpt.getY();
+	translate( -dx, -dy );
 	this->rotate( rot );
-	translate( refpt.getX(), refpt.getY() );
+	translate( dx, dy );
 }
 
 //------------------------------------------------------------------
@@ -7633,9 +7635,11 @@ template<typename FPT2>
 void
 FRect_<FPT>::rotate( Rotate rot, const Point2d_<FPT2>& refpt )
 {
-	translate( -refpt.getX(), -refpt.getY() );
+	auto dx = refpt.getX();   // copies, because refpt can be one of our points
+	auto dy = refpt.getY();
+	translate( -dx, -dy );
 	this->rotate( rot );
-	translate( refpt.getX(), refpt.getY() );
+	translate( dx, dy );
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From a58fc5c2b609cab259290f492369cc2e555e0512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 17/60] fix: equality of closed polylines whose smallest point
 is repeated or has aligned neighbors

---
 homog2d.hpp | 56 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 9cc664f..b6a35e7 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7587,31 +7587,45 @@ base::PolylineBase<PLT,FPT>::p_normalizePoly() const
 	{
 		if constexpr ( std::is_same_v<PLT,typ::IsClosed> )
 		{
-			auto minpos = std::min_element( _plinevec.begin(), _plinevec.end() );
-			std::rotate( _plinevec.begin(), minpos, _plinevec.end() );
-
-			auto ptB = _plinevec[0];
-			auto ptA = _plinevec[1];
-			auto ptC = _plinevec[size()-1];
-
-			HOMOG2D_INUMTYPE xA = ptA.getX();
-			HOMOG2D_INUMTYPE xB = ptB.getX();
-			HOMOG2D_INUMTYPE xC = ptC.getX();
-			HOMOG2D_INUMTYPE yA = ptA.getY();
-			HOMOG2D_INUMTYPE yB = ptB.getY();
-			HOMOG2D_INUMTYPE yC = ptC.getY();
-
-			auto det = (xB-xA)*(yC-yA) - (xC-xA)*(yB-yA);
-			if( det < 0)
+			auto minpt = *std::min_element( _plinevec.begin(), _plinevec.end() );
+
+			std::vector<Point2d_<FPT>> best;
+			auto check = [&]( std::vector<Point2d_<FPT>> cand )    // lambda
 			{
-				std::reverse( _plinevec.begin(), _plinevec.end() );
-				minpos = std::min_element( _plinevec.begin(), _plinevec.end() );
-				std::rotate( _plinevec.begin(), minpos, _plinevec.end() );
-			}
+				const auto& ptB = cand[0];
+				const auto& ptA = cand[1];
+				const auto& ptC = cand[size()-1];
+
+				HOMOG2D_INUMTYPE xA = ptA.getX();
+				HOMOG2D_INUMTYPE xB = ptB.getX();
+				HOMOG2D_INUMTYPE xC = ptC.getX();
+				HOMOG2D_INUMTYPE yA = ptA.getY();
+				HOMOG2D_INUMTYPE yB = ptB.getY();
+				HOMOG2D_INUMTYPE yC = ptC.getY();
+
+				auto det = (xC-xB)*(yA-yB) - (xA-xB)*(yC-yB); // opposite value for opposite direction
+				if( det < 0 )
+					return;
+				if( best.empty() || std::lexicographical_compare( cand.begin(), cand.end(), best.begin(), best.end() ) )
+					best = std::move( cand );
+			};
+
+// the smallest point can appear several times (if not simple), and its two neighbors can be
+// in the same direction: in such cases, we keep the smallest sequence
+			for( size_t i=0; i<size(); i++ )
+				if( !( minpt < _plinevec[i] ) )
+				{
+					auto cand = _plinevec;
+					std::rotate( cand.begin(), cand.begin()+i, cand.end() );
+					check( cand );
+					std::reverse( cand.begin()+1, cand.end() );
+					check( std::move( cand ) );
+				}
+			_plinevec = std::move( best );
 		}
 		else
 		{
-			if( _plinevec.back() < _plinevec.front() )
+			if( std::lexicographical_compare( _plinevec.rbegin(), _plinevec.rend(), _plinevec.begin(), _plinevec.end() ) )
 				std::reverse( _plinevec.begin(), _plinevec.end() );
 		}
 		_plIsNormalized=true;
-- 
2.43.0


From d67ef5c388cd901d992a27ae8f81d3ca4e7115b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 18/60] fix: isSimple() missed edges that overlap along a line,
 and polygons of three aligned points

---
 homog2d.hpp | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index b6a35e7..031d83d 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7384,6 +7384,35 @@ PolylineBase<PLT,FPT>::impl_minimizePL( const detail::PlHelper<typename typ::IsC
 }
 
 
+//------------------------------------------------------------------
+/// Private helper function, used by PolylineBase::isSimple(): returns true if the two segments lie on
+/// the same line and overlap. If not \c consecutive, then sharing a single point is considered as an overlap.
+template<typename SV1,typename SV2,typename FPT1,typename FPT2>
+bool
+segmentsOverlap( const SegVec<SV1,FPT1>& seg1, const SegVec<SV2,FPT2>& seg2, bool consecutive )
+{
+	const auto ppts1 = seg1.getPts();
+	const auto ppts2 = seg2.getPts();
+	HOMOG2D_INUMTYPE x0 = ppts1.first.getX();
+	HOMOG2D_INUMTYPE y0 = ppts1.first.getY();
+	auto ux = ppts1.second.getX()  - x0;
+	auto uy = ppts1.second.getY()  - y0;
+	auto ax = ppts2.first.getX()   - x0;
+	auto ay = ppts2.first.getY()   - y0;
+	auto bx = ppts2.second.getX()  - x0;
+	auto by = ppts2.second.getY()  - y0;
+
+	auto len = homog2d_sqrt( ux*ux + uy*uy );
+	auto maxdist = thr::nullDistance() * len;
+	if( homog2d_abs( ux*ay - uy*ax ) > maxdist || homog2d_abs( ux*by - uy*bx ) > maxdist )
+		return false;                                         // not on same line
+
+	auto pa = ( ux*ax + uy*ay ) / len;                        // positions along the line
+	auto pb = ( ux*bx + uy*by ) / len;
+	auto common = std::min( len, std::max(pa,pb) ) - std::max( static_cast<HOMOG2D_INUMTYPE>(0.), std::min(pa,pb) );
+	return consecutive ? common > thr::nullDistance() : common > -thr::nullDistance();
+}
+
 //------------------------------------------------------------------
 /// Returns true if object is a polygon (closed, and no segment crossing)
 template<typename PLT,typename FPT>
@@ -7405,14 +7434,22 @@ PolylineBase<PLT,FPT>::isSimple() const
 			do
 			{
 				auto seg1 = getSegment(i);
+				if( segmentsOverlap( seg1, getSegment( i==nbs-1?0:i+1 ), true ) )
+				{
+					hasIntersections = true;
+					break;
+				}
 				auto lastone = i==0?nbs-1:nbs;
 				for( auto j=i+2; j<lastone; j++ )
-					if( getSegment(j).intersects(seg1)() )
+				{
+					auto seg2 = getSegment(j);
+					if( seg2.intersects(seg1)() || segmentsOverlap( seg1, seg2, false ) )
 					{
 						notDone = false;
 						hasIntersections = true;
 						break;
 					}
+				}
 				i++;
 			}
 			while( i<nbs && notDone );
-- 
2.43.0


From 21ffb3b20facbb9d779a86c5a1d60e7844b688b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:00 +0000
Subject: [PATCH 19/60] fix: a point aligned with an edge of a polygon was
 reported as not inside

---
 homog2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 031d83d..1302c75 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9431,7 +9431,7 @@ LPBase<LP,FPT>::impl_isInsidePoly( const base::PolylineBase<PTYPE,T>& poly, cons
 
 // step 2: check if point is lying on one of the segments. If so, return false;
 	for( auto seg: poly.getSegs() )
-		if( seg.getLine().distTo( *this ) < thr::nullDistance() )
+		if( seg.distTo( *this ) < thr::nullDistance() )
 				return false;
 
 	auto segarr = bbox.getExtended().getSegs();
@@ -9443,6 +9443,7 @@ LPBase<LP,FPT>::impl_isInsidePoly( const base::PolylineBase<PTYPE,T>& poly, cons
 		bool tooClose = false;
 		for( size_t i=0; i<seg_bb.size(); i++ )        // iterate on all segments of the extended bounding box
 		{
+			tooClose = false;
 			Segment_<HOMOG2D_INUMTYPE> seg_ref( *this, seg_bb[i].getCenter() );
 
 			auto poly_pts = poly.getPts();
-- 
2.43.0


From 003f71ca7da7592fd3decc00f35d9d290e9c0494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 20/60] fix: segment/circle and circle/circle intersections at
 tangency or having an endpoint on the circle

---
 homog2d.hpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 1302c75..0977451 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5825,7 +5825,8 @@ Circle_<FPT>::intersects( const Circle_<FPT2>& other ) const
 
 	auto d = homog2d_sqrt( d_squared );
 	auto a = (r1*r1 - r2*r2 + d_squared) / (HOMOG2D_INUMTYPE)2. / d;
-	auto h = homog2d_sqrt( r1*r1 - a*a );
+	auto h2 = r1*r1 - a*a;
+	auto h = h2 > 0. ? homog2d_sqrt( h2 ) : (HOMOG2D_INUMTYPE)0.; // rounding can give a (small) negative value if tangent
 
 	Point2d_<FPT> P0(
 		( x2 - x1 ) * a / d + x1,
@@ -8232,13 +8233,13 @@ template<typename FPT,typename FPT2>
 PtTag
 getPtLabel( const Point2d_<FPT>& pt, const Circle_<FPT2>& circle )
 {
-	if( pt.isInside( circle ) )
-		return PtTag::Inside;
 	if(
 		homog2d_abs( pt.distTo( circle.center() ) - circle.radius() )
 			< thr::nullDistance()
 	)
 		return PtTag::OnEdge;
+	if( pt.isInside( circle ) )
+		return PtTag::Inside;
 	return PtTag::Outside;
 }
 #if 0
@@ -8392,23 +8393,24 @@ SegVec<SV,FPT>::intersects( const Circle_<FPT2>& circle ) const
 	}
 
 	detail::IntersectM<FPT> out;
-	if( tag_ptS1 == PtTag::Outside && tag_ptS2 == PtTag::Outside ) // both outside
-	{
-		auto d1 = _ptS1.distTo( p1 );
-		auto d2 = _ptS2.distTo( p1 );
-		if( homog2d_abs( d1+d2-length() ) >= thr::nullDistance() )   // if sum of the two distances is higher than length
-			return detail::IntersectM<FPT>();
-
-		out.add( p1 );
-		out.add( p2 );
-		return out;
-	}
-
 	if( tag_ptS1 == PtTag::OnEdge )
 		out.add( _ptS1 );
 	if( tag_ptS2 == PtTag::OnEdge )
 		out.add( _ptS2 );
 
+// both outside, or one on the edge: add the intersection points that lie on the segment and that we don't have already
+	if( tag_ptS1 == PtTag::Outside || tag_ptS2 == PtTag::Outside )
+		for( const auto& pt: { p1, p2 } )
+		{
+			if( homog2d_abs( _ptS1.distTo( pt ) + _ptS2.distTo( pt ) - length() ) >= thr::nullDistance() )
+				continue;
+			bool isNew = true;
+			for( const auto& pt2: out.get() )
+				if( pt2 == pt )
+					isNew = false;
+			if( isNew )
+				out.add( pt );
+		}
 	return out;
 }
 
-- 
2.43.0


From a6a2a0cc689b6c2fde527f405604e58df6d7b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:14 +0000
Subject: [PATCH 21/60] fix: OSegment/Segment intersection did not build

---
 homog2d.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 0977451..9280ff8 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8272,9 +8272,6 @@ detail::Intersect<detail::Inters_1,FPT>
 SegVec<SV,FPT>::intersects( const SegVec<SV2,FPT2>& s2 ) const
 {
 //	HOMOG2D_START;
-	if( *this == s2 )              // same segment => no intersection
-		return detail::Intersect<detail::Inters_1,FPT>();
-
 	Line2d_<HOMOG2D_INUMTYPE> l1 = getLine();
 	Line2d_<HOMOG2D_INUMTYPE> l2 = s2.getLine();
 	if( l1.isParallelTo( l2 ) )                            // if parallel,
-- 
2.43.0


From bb7bdcef438f05e02819bc8815348a177e1a2b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 22/60] fix: bounding box of an empty polyline and another
 object was refused, depending on argument order

---
 homog2d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 9280ff8..8b2e16b 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10511,7 +10511,7 @@ getBB( const T1& elem1, const T2& elem2 )
 
 	bool isPoly_2 = false;
 	if( elem2.type() == Type::OPolyline || elem2.type() == Type::CPolyline )
-		isPoly_1 = true;
+		isPoly_2 = true;
 
 	auto siz_1 = elem1.size();
 	auto siz_2 = elem2.size();
@@ -10523,7 +10523,7 @@ getBB( const T1& elem1, const T2& elem2 )
 	FRect_<typename T1::FType> out;
 // we need to do that in two steps: first, copy return value into `out`, then return
 // because the underlying floating point might not be the same for the two arguments.
-	if( isPoly_2 && siz_1==0 )
+	if( isPoly_1 && siz_1==0 )
 	{
 		auto pp = ppair::getPointPair( elem2 );
 		if( shareCommonCoord(pp) )
@@ -10533,7 +10533,7 @@ getBB( const T1& elem1, const T2& elem2 )
 		else
 			return FRect_<typename T1::FType>( pp );
 	}
-	if( isPoly_1 && siz_2==0 )
+	if( isPoly_2 && siz_2==0 )
 	{
 		auto pp = ppair::getPointPair( elem1 );
 		if( shareCommonCoord(pp) )
-- 
2.43.0


From 2e1e4d11b2b7d4ef8561bae560ae9d36ded9ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:55 +0000
Subject: [PATCH 23/60] fix: bounding box of a vector of variants holding a
 line took in the point (0,0)

---
 homog2d.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 8b2e16b..6b103c4 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10357,10 +10357,13 @@ getBB_CommonType( const std::vector<CommonType_<FPT>>& v_var )
 		catch( const std::exception& err )
 		{
 			HOMOG2D_LOG_WARNING( "unable to compute point pair\n -msg=" << err.what() );
+			continue;
 		}
 		vpts.push_back( ppair.first );
 		vpts.push_back( ppair.second );
 	}
+	if( vpts.empty() )
+		HOMOG2D_THROW_ERROR_1( "unable, can't compute bounding box, no element has one" );
 	return FRect_<FPT>( getBB_Points( vpts ) );
 }
 
-- 
2.43.0


From bf6268ae0e77a4416ffd1c04673776f787f47b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 24/60] fix: angle of an ellipse having a vertical major axis
 was 90 instead of PI/2

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6b103c4..649b963 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8605,7 +8605,7 @@ Ellipse_<FPT>::p_computeParams() const
 	if( homog2d_abs(B) < thr::nullDenom() )
 	{
 		if( A > C )
-			par.theta = 90.;
+			par.theta = M_PI / 2.;
 	}
 	else
 	{
-- 
2.43.0


From 966ddb60b591babf3bfbc3d44aafffd15b70901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 25/60] fix: comparing ellipses modified them, and was refused
 for an ellipse going through the origin

---
 homog2d.hpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 649b963..1c66c36 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2359,22 +2359,17 @@ public:
 	friend std::ostream&
 	operator << ( std::ostream& f, const Ellipse_<T>& ell );
 
-/// Comparison operator. Does normalization if required
+/// Comparison operator. The matrix is defined up to a scale factor, so both are compared once normalized.
+/**
+We cannot divide by the value at (2,2), it is null if the ellipse goes through the origin
+*/
 	bool operator == ( const Ellipse_& h ) const
 	{
-		auto& data = detail::Matrix_<FPT>::_mdata;
-
-		if( !detail::Matrix_<FPT>::isNormalized() )
-			detail::Matrix_<FPT>::p_normalizeMat(2,2);
-		if( !h.isNormalized() )
-			h.p_normalizeMat(2,2);
-
+		auto n1 = p_getNorm();
+		auto n2 = h.p_getNorm();
 		for( int i=0; i<3; i++ )
 			for( int j=0; j<3; j++ )
-				if( std::fabs(
-					static_cast<HOMOG2D_INUMTYPE>( data[i][j] ) - h.value(i,j) )
-					>= thr::nullDeter()
-				)
+				if( homog2d_abs( this->value(i,j) / n1 - h.value(i,j) / n2 ) >= thr::nullDeter() )
 					return false;
 		return true;
 	}
@@ -2397,6 +2392,20 @@ is indeed a valid ellipse
 	explicit Ellipse_( const detail::Matrix_<FPT>& mat ): detail::Matrix_<FPT>( mat )
 	{}
 
+/// Returns norm of matrix (signed, so that A+C is positive once divided by that value)
+	HOMOG2D_INUMTYPE p_getNorm() const
+	{
+		HOMOG2D_INUMTYPE sum = 0.;
+		for( int i=0; i<3; i++ )
+			for( int j=0; j<3; j++ )
+			{
+				HOMOG2D_INUMTYPE v = this->value(i,j);
+				sum += v*v;
+			}
+		auto norm = homog2d_sqrt( sum );
+		return this->value(0,0) + this->value(1,1) < 0. ? -norm : norm;
+	}
+
 	template<typename T>
 	detail::EllParams<T> p_getParams() const;
 	template<typename T>
-- 
2.43.0


From 6800ac89a6dc8b14e471b392c68f977892c2c6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 26/60] fix: converting the result of an intersection to
 another floating point type

---
 homog2d.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 1c66c36..aa776a8 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2506,6 +2506,7 @@ template<typename FPT>
 class Intersect<Inters_1,FPT>: public IntersectCommon
 {
 	template<typename T,typename U> friend class h2d::base::SegVec;
+	template<typename T,typename U> friend class Intersect;
 
 	public:
 		Point2d_<FPT>
@@ -2547,6 +2548,8 @@ class Intersect<Inters_2,FPT>: public IntersectCommon
 {
 	template<typename U,typename V>
 	friend class ::h2d::base::LPBase;
+	template<typename T,typename U>
+	friend class Intersect;
 
 	public:
 		Intersect() {}
@@ -2560,9 +2563,8 @@ class Intersect<Inters_2,FPT>: public IntersectCommon
 		Intersect( const Intersect<Inters_2,FPT2>& other )
 			: IntersectCommon( other )
 		{
-			auto ppts = other.get();
-			_ptIntersect_1 = ppts.first;
-			_ptIntersect_2 = ppts.second;
+			_ptIntersect_1 = other._ptIntersect_1;
+			_ptIntersect_2 = other._ptIntersect_2;
 		}
 		size_t size() const { return _doesIntersect?2:0; }
 
-- 
2.43.0


From baea37a744c0b25c7aad4ab62130a64a0319103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:41 +0000
Subject: [PATCH 27/60] fix: union of two rectangles sharing part of an edge

---
 homog2d.hpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index aa776a8..be25088 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7906,16 +7906,22 @@ struct Index
 {
 	T       _value;
 	uint8_t _rect_idx=0;   // 0 means none, will be 1 or 2
+	bool    _isMax=false;  // true if highest coordinate of the rectangle
 
 	Index() = default;
-	Index( T v, uint8_t r )
-		: _value(v), _rect_idx(r)
+	Index( T v, uint8_t r, bool isMax )
+		: _value(v), _rect_idx(r), _isMax(isMax)
 	{}
+/// If identical values, then the lowest coordinate of a rectangle comes first, so that two rectangles
+/// sharing (part of) an edge are handled as if they were overlapping.
 	friend bool operator < ( const Index& i1, const Index& i2 )
 	{
-
 		if( i1._value == i2._value )
+		{
+			if( i1._isMax != i2._isMax )
+				return i2._isMax;
 			return i1._rect_idx < i2._rect_idx;
+		}
 		return i1._value < i2._value;
 	}
 	friend std::ostream& operator << ( std::ostream& f, const Index& idx )
@@ -8197,16 +8203,16 @@ FRect_<FPT>::unionArea( const FRect_<FPT2>& other ) const
 // step 1: build vectors of coordinates and sort them
 	std::array<Index<FPT>,4> vx, vy;
 	int i=0;
-	vx[i++] = Index<FPT>( r1.getPts().first.getX(),  1 );
-	vx[i++] = Index<FPT>( r1.getPts().second.getX(), 1 );
-	vx[i++] = Index<FPT>( r2.getPts().first.getX(),  2 );
-	vx[i++] = Index<FPT>( r2.getPts().second.getX(), 2 );
+	vx[i++] = Index<FPT>( r1.getPts().first.getX(),  1, false );
+	vx[i++] = Index<FPT>( r1.getPts().second.getX(), 1, true );
+	vx[i++] = Index<FPT>( r2.getPts().first.getX(),  2, false );
+	vx[i++] = Index<FPT>( r2.getPts().second.getX(), 2, true );
 
 	i=0;
-	vy[i++] = Index<FPT>( r1.getPts().first.getY(),  1 );
-	vy[i++] = Index<FPT>( r1.getPts().second.getY(), 1 );
-	vy[i++] = Index<FPT>( r2.getPts().first.getY(),  2 );
-	vy[i++] = Index<FPT>( r2.getPts().second.getY(), 2 );
+	vy[i++] = Index<FPT>( r1.getPts().first.getY(),  1, false );
+	vy[i++] = Index<FPT>( r1.getPts().second.getY(), 1, true );
+	vy[i++] = Index<FPT>( r2.getPts().first.getY(),  2, false );
+	vy[i++] = Index<FPT>( r2.getPts().second.getY(), 2, true );
 
 	std::sort( vx.begin(), vx.end() );
 	std::sort( vy.begin(), vy.end() );
-- 
2.43.0


From bfed504aa0b9a2c48d767dff70ebd0ed19cd7935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 28/60] fix: union and intersection area of rectangles of
 different floating point types did not build

---
 homog2d.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index be25088..47da92f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7848,7 +7848,7 @@ FRect_<FPT>::intersectArea( const FRect_<FPT2>& other ) const
 	);*/
 #endif
 	const auto& r1 = *this;
-	const auto& r2 = other;
+	const FRect_<FPT> r2( other );  // the other one might have another floating-point type
 //	HOMOG2D_LOG( "r1="<<r1 << " r2="<<r2 );
 	auto v1 = r1.p_pointsInside( r2 );
 	auto v2 = r2.p_pointsInside( r1 );
@@ -8193,8 +8193,9 @@ FRect_<FPT>::unionArea( const FRect_<FPT2>& other ) const
   That would happen if we have an identical x in the two rect
   (thus, they DO intersect), because when sorting, the rect with smallest index
   (1 or 2) is placed first in the vector of coordinates */
+	const FRect_<FPT> other2( other );  // the other one might have another floating-point type
 	const auto* pr1 = this;
-	const auto* pr2 = &other;
+	const auto* pr2 = &other2;
 	if( pr1->getPts().first.getX() < pr2->getPts().first.getX() )
 		std::swap( pr1, pr2 );
 	const auto& r1 = *pr1;
-- 
2.43.0


From cc4985e1094452e3a3477d815a798b8e2eefa79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 29/60] fix: nearest and farthest point when the container
 starts with several copies of the query point

---
 homog2d.hpp | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 47da92f..0dcbf8f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11182,20 +11182,12 @@ findPoint(
 
 	decltype( priv::sqDist( qpt, qpt ) ) resDist;
 	size_t startIdx = 1;
-	size_t resIdx = 0;
 
-// if point is the first one of the container, then
-// initialize with the second one
-	if( cont[0] == qpt )
-	{
+// initialize with the first point of the container that is not the query point
+	while( startIdx < cont.size() && cont[startIdx-1] == qpt )
 		startIdx++;
-		resIdx++;
-		resDist = priv::sqDist( qpt, cont[1] );
-	}
-	else // initialize with first point
-	{
-		resDist = priv::sqDist( qpt, cont[0] );
-	}
+	size_t resIdx = startIdx - 1;
+	resDist = priv::sqDist( qpt, cont[resIdx] );
 
 	for( size_t i=startIdx; i<cont.size(); i++ )
 	{
@@ -11258,19 +11250,14 @@ findNearestFarthestPoint( const Point2d_<FPT>& pt, const T& cont )
 		HOMOG2D_THROW_ERROR_1( "container holds " << cont.size() \
 			<< " points, minimum is 2" );
 
-	auto maxDist = priv::sqDist( pt, cont[0] );
-	auto minDist = maxDist;
-	size_t idxMin = 0;
-	size_t idxMax = 0;
+// initialize with the first point of the container that is not the query point
 	size_t startIdx = 1;
-	if( pt == cont[0] )
-	{
-		idxMin++;
-		idxMax++;
+	while( startIdx < cont.size() && cont[startIdx-1] == pt )
 		startIdx++;
-		maxDist = priv::sqDist( pt, cont[1] );
-		minDist = maxDist;
-	}
+	size_t idxMin = startIdx - 1;
+	size_t idxMax = idxMin;
+	auto maxDist = priv::sqDist( pt, cont[idxMin] );
+	auto minDist = maxDist;
 	for( size_t i=startIdx; i<cont.size(); i++ )
 	{
 		if( pt != cont[i] )
-- 
2.43.0


From 68231f87263b788672fea0a5c1086fc39038083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 30/60] fix: distance between parallel lines could be NaN, or
 wrong if their normal vectors are opposite

---
 homog2d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 0dcbf8f..20b6076 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11069,9 +11069,9 @@ getParallelDistance( const Line2d_<FPT>& li1, const Line2d_<FPT>& li2 )
 	const HOMOG2D_INUMTYPE b2 = ar2[1];
 	const HOMOG2D_INUMTYPE c2 = ar2[2];
 
-	HOMOG2D_INUMTYPE a = homog2d_sqrt( a1*a2 );
-	HOMOG2D_INUMTYPE b = homog2d_sqrt( b1*b2 );
-	return homog2d_abs( c1 - c2 ) / homog2d_sqrt( a*a + b*b );
+// the two normal vectors can have opposite directions, or slightly different values (rounding)
+	HOMOG2D_INUMTYPE dot = a1*a2 + b1*b2;
+	return homog2d_abs( dot < 0. ? c1 + c2 : c1 - c2 ) / homog2d_sqrt( homog2d_abs( dot ) );
 }
 
 /// Return angle of ellipse (free function)
-- 
2.43.0


From 8752f5881dbce45bc560dc1717c9f34f75651f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:56 +0000
Subject: [PATCH 31/60] fix: Circle set(radius) accepted an invalid radius

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 20b6076..acdad34 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -3366,7 +3366,7 @@ Use of Sfinae so it can be selected only for arithmetic types
 	>
 	void set( T rad )
 	{
-		_radius = rad;
+		set( _center, rad );
 	}
 
 /// Set circle from center point and radius
-- 
2.43.0


From d0aa960a56ed48c6fd55c840ec3c4f440d3961b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 32/60] fix: convex hull of points holding duplicates or
 aligned points

---
 homog2d.hpp | 64 ++++++++++++++++++++++-------------------------------
 1 file changed, 26 insertions(+), 38 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index acdad34..d58bf97 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11532,7 +11532,7 @@ template<typename FPT>
 std::vector<size_t>
 sortPoints( const std::vector<Point2d_<FPT>>& in, size_t piv_idx )
 {
-	assert( in.size()>3 );
+	assert( in.size()>2 );
 
 // step 1: create new vector holding the indexes of the points, including the pivot point (will be in first position)
 	std::vector<size_t> out( in.size() );
@@ -11540,7 +11540,8 @@ sortPoints( const std::vector<Point2d_<FPT>>& in, size_t piv_idx )
 	std::swap( out[piv_idx], out[0] );
 	auto pt0 = in[piv_idx];
 
-// step 2: sort points by angle of lines between the current point and pivot point
+// step 2: sort points by angle of lines between the current point and pivot point,
+// then by distance to pivot point, so that the copies of the pivot point come first
 	std::sort(
 		out.begin()+1,
 		out.end(),
@@ -11549,11 +11550,16 @@ sortPoints( const std::vector<Point2d_<FPT>>& in, size_t piv_idx )
 		{
 			auto pt1 = in[i1];
 			auto pt2 = in[i2];
-			auto dx1 = pt1.getX() - pt0.getX();
-			auto dy1 = pt1.getY() - pt0.getY();
-			auto dx2 = pt2.getX() - pt0.getX();
-			auto dy2 = pt2.getY() - pt0.getY();
-			return ((dx1 * dy2 - dx2 * dy1) > 0);
+			HOMOG2D_INUMTYPE dx1 = static_cast<HOMOG2D_INUMTYPE>( pt1.getX() ) - pt0.getX();
+			HOMOG2D_INUMTYPE dy1 = static_cast<HOMOG2D_INUMTYPE>( pt1.getY() ) - pt0.getY();
+			HOMOG2D_INUMTYPE dx2 = static_cast<HOMOG2D_INUMTYPE>( pt2.getX() ) - pt0.getX();
+			HOMOG2D_INUMTYPE dy2 = static_cast<HOMOG2D_INUMTYPE>( pt2.getY() ) - pt0.getY();
+			auto d1 = dx1*dx1 + dy1*dy1;
+			auto d2 = dx2*dx2 + dy2*dy2;
+			auto det = dx1 * dy2 - dx2 * dy1;
+			if( d1 == 0. || d2 == 0. || det == 0. )
+				return d1 < d2;
+			return det > 0.;
 		}
 	);
 	return out;
@@ -11625,7 +11631,7 @@ template<typename FPT>
 CPolyline_<FPT>
 convexHull( const std::vector<Point2d_<FPT>>& input )
 {
-	if( input.size() < 4 )  // if 3 pts or less, then the hull is equal to input set
+	if( input.size() < 3 )  // if less than 3 pts, then the hull is equal to input set
 		return CPolyline_<FPT>( input );
 
 // step 1: find pivot (point with smallest Y coord)
@@ -11634,44 +11640,26 @@ convexHull( const std::vector<Point2d_<FPT>>& input )
 // step 2: sort points by angle of lines between the current point and pivot point
 	auto v2 = priv::chull::sortPoints( input, pivot_idx );
 
-	std::stack<size_t> firstPoint;
 	priv::chull::Mystack hull;
 	hull.push( v2[0] );
-	hull.push( v2[1] );
-	hull.push( v2[2] );
-
-	firstPoint.push( 0 );
-	firstPoint.push( 1 );
 
-// step 3: iterate
-	size_t idx1 = 1;
-	size_t idx2 = 2;
-	size_t idx3 = 3;
-	do
+// step 3: iterate, and keep only the points where we turn left
+	for( size_t i=1; i<v2.size(); i++ )
 	{
-//		HOMOG2D_LOG( "** loop start, idx1=" << idx1 << ", idx2=" << idx2  << ", idx3=" << idx3 << ", hull " << hull.getVect() );
-		auto p = input.at( v2[idx1] );
-		auto q = input.at( v2[idx2] );
-		auto r = input.at( v2[idx3] );
-		auto orient = priv::chull::orientation( p, q, r );
-//		HOMOG2D_LOG( "considering pts: " << v2[idx1] << "," << v2[idx2] << "," << v2[idx3] << ": or = " << orient );
-		if( orient != 1 )
-		{
-			hull.push( v2[idx3] );
-			idx1 = idx2;
-			idx2 = idx3;
-			idx3++;
-			firstPoint.push( idx1 );
-		}
-		else
+		const auto& r = input.at( v2[i] );
+		if( r == input.at( v2[0] ) )      // copy of the pivot point
+			continue;
+		while( hull.size() > 1 )
 		{
+			const auto& v = hull.getVect();
+			const auto& p = input.at( v[v.size()-2] );
+			const auto& q = input.at( v.back() );
+			if( priv::chull::orientation( p, q, r ) == -1 )
+				break;
 			hull.pop();
-			idx2=idx1; // idx3 stays the same
-			firstPoint.pop();
-			idx1 = firstPoint.top();
 		}
+		hull.push( v2[i] );
 	}
-	while( idx3 < v2.size() );
 
 // final step: copy hull indexes to vector of points
 	const auto v = hull.getVect();
-- 
2.43.0


From 88a109fdcafc277603680118f74a7f1e923559bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 33/60] fix: SVG path numbers with an exponent, a sign used as
 separator, or followed by whitespace

---
 homog2d.hpp | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index d58bf97..9943f2c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12622,23 +12622,45 @@ std::string
 getNextElem( const std::string& str, std::string::const_iterator& it )
 {
 	std::string out;
-	while( *it == ' ' || *it == ',' ) // skip spaces and commas
+	while( it != str.cend() && ( std::isspace( static_cast<unsigned char>(*it) ) || *it == ',' ) ) // skip whitespaces and commas
 		it++;
 
-	if( it >= str.cend() )
+	if( it == str.cend() )
 		return out;         // return empty string
 
-	if( !isDigit(*it) )        // alpha character
+	if( !isDigit(*it) && *it != '+' )        // alpha character
 	{
 		out.push_back( *it );
 		it++;
 	}
-	else
+	else  // a number ends where it cannot be continued: "1-2" and ".5.5" both hold two numbers
 	{
-		while( isDigit(*it) && it < str.cend() )
+		bool hasDot = false;
+		bool hasExp = false;
+		for( ; it != str.cend(); it++ )
 		{
-			out.push_back( *it );
-			it++;
+			const char c = *it;
+			const bool afterExp = !out.empty() && ( out.back() == 'e' || out.back() == 'E' );
+			if( c == '-' || c == '+' )
+			{
+				if( !out.empty() && !afterExp )
+					break;
+			}
+			else if( c == '.' )
+			{
+				if( hasDot || hasExp )
+					break;
+				hasDot = true;
+			}
+			else if( c == 'e' || c == 'E' )
+			{
+				if( hasExp )
+					break;
+				hasExp = true;
+			}
+			else if( !isDigit(c) )
+				break;
+			out.push_back( c );
 		}
 //		std::cout << "getNextElem() DIGITS:-" << out << "- #=" << out.size() << '\n';
 //		return out;
@@ -12876,6 +12898,8 @@ parsePath( const char* s )
 		auto e = getNextElem( str, it );
 //		HOMOG2D_LOG( "parsing element -" << e << "- #=" << e.size() );
 
+		if( e.empty() )        // only separators left
+			break;
 		if( e.size() == 1 && !isDigit(e[0]) ) // we have a command !
 		{
 			if( values.size() != 0 )              // if we have some values stored,
-- 
2.43.0


From a298da0536a099c05ea8fbc0162a5a205df64359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 34/60] fix: SVG path drawing after a close command

---
 homog2d.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 9943f2c..5551c91 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12912,14 +12912,20 @@ parsePath( const char* s )
 
 			if( mode.isNewPolyline() && !vout[idx].empty() )
 			{
+				if( mode._command == 'Z' )                      // after closing, the current point
+					values._previousPt = vout[idx].front();     // is the first point of that polyline
 				vout.push_back( std::vector<Point2d>() );
 				idx++;
 				HOMOG2D_LOG( "NEW vector idx=" << idx );
 			}
+			if( !mode.isNewPolyline() && vout[idx].empty() && idx > 0 ) // drawing continues after closing
+				vout[idx].push_back( values._previousPt );
 		}
 		else // not a command, but a value
 		{
 //			HOMOG2D_LOG( "process value, values size=" << values.size() );
+			if( mode._nbValues == 0 )
+				HOMOG2D_THROW_ERROR_1( "SVG path: value -" << e << "- without a command" );
 			if( values.size() == (size_t)mode._nbValues ) // already got enough values
 				values.storeValues( vout[idx], mode );
 			values.addValue( e );
-- 
2.43.0


From 2049299f071f75827ab974603602e59b8c16b568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 35/60] fix: SVG path holding a single point was imported as an
 empty polyline

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 5551c91..5091447 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -13123,6 +13123,8 @@ Visitor::VisitExit( const tinyxml2::XMLElement& e )
 					{
 						if( vec_pts.front() == vec_pts.back() ) // if first point equal to last
 							vec_pts.pop_back();                  //  point, remove last point
+						if( vec_pts.size() < 2 )             // a single point is not a polyline
+							continue;
 
 						if( parse_res.second == true )
 							_vecVar.emplace_back( CPolylineD(vec_pts) );
-- 
2.43.0


From 6e040fbbe3287961afe29b130b411075b7307f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:44 +0000
Subject: [PATCH 36/60] fix: SVG import of ellipses being vertical, without
 rotation, or rotated about another point

---
 homog2d.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 5091447..7a72a8a 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -13147,10 +13147,16 @@ Visitor::VisitExit( const tinyxml2::XMLElement& e )
 				auto y  = svgp::getAttribValue( e, "cy", n );
 				auto rx = svgp::getAttribValue( e, "rx", n );
 				auto ry = svgp::getAttribValue( e, "ry", n );
+				auto ell = EllipseD( x, y, rx, ry, rx < ry ? M_PI / 2. : 0. ); // the ellipse constructor swaps the radiuses if needed
+				if( e.Attribute( "transform" ) == nullptr )
+				{
+					_vecVar.push_back( ell );
+					break;
+				}
 				auto rot = svgp::getEllipseRotateAttr( svgp::getAttribString( "transform", e ) );
-				auto ell = EllipseD( x, y, rx, ry );
-
-				auto H = Homogr().addTranslation(-x,-y).addRotation(rot.second).addTranslation(x,y);
+				auto xr = rot.first.getX();  // center of rotation
+				auto yr = rot.first.getY();
+				auto H = Homogr().addTranslation(-xr,-yr).addRotation(rot.second).addTranslation(xr,yr);
 				_vecVar.push_back( H * ell );
 			}
 			break;
-- 
2.43.0


From daaf76804ae68bc20148651ea3b20eb186d42867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:57 +0000
Subject: [PATCH 37/60] fix: segment/line intersection was checked, and stored,
 with a point rounded to float

---
 homog2d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 7a72a8a..5f9a6c2 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8309,7 +8309,7 @@ SegVec<SV,FPT>::intersects( const SegVec<SV2,FPT2>& s2 ) const
 		auto dB1 = ptB1.distTo( ptInter );
 		auto dB2 = ptB2.distTo( ptInter );
 		if( homog2d_abs(dB1+dB2 - s2.length()) < thr::nullDistance() )
-			return detail::Intersect<detail::Inters_1,FPT>( ptInter );
+			return detail::Intersect<detail::Inters_1,FPT>( Point2d_<FPT>( ptInter.getX(), ptInter.getY() ) );
 	}
 	return detail::Intersect<detail::Inters_1,FPT>(); // no intersection
 }
@@ -8333,9 +8333,9 @@ SegVec<SV,FPT>::intersects( const Line2d_<FPT2>& li1 ) const
 	if( li1.isParallelTo( li2 ) ) // if parallel, no intersection
 		return out;
 
-	out._ptIntersect = li1 * li2;   // intersection point
+	Point2d_<HOMOG2D_INUMTYPE> pi = li2 * li1;   // intersection point
+	out._ptIntersect = Point2d_<FPT>( pi.getX(), pi.getY() );
 
-	const auto& pi  = out._ptIntersect;
 	const auto& pt1 = getPts().first;
 	const auto& pt2 = getPts().second;
 
-- 
2.43.0


From 85f34cc9b72cb7469b417c97d416b36c3d340f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:07 +0000
Subject: [PATCH 38/60] fix: bounding box of a container of oriented segments
 was refused

---
 homog2d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 5f9a6c2..ab0878c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2111,6 +2111,7 @@ template <typename V, size_t n> struct IsArray<std::array<V, n>> : std::true_typ
 /// Traits class, used for getBB() set of functions
 template<class>   struct IsSegment              : std::false_type {};
 template<class T> struct IsSegment<Segment_<T>> : std::true_type  {};
+template<class T> struct IsSegment<OSegment_<T>>: std::true_type  {};
 template<class>   struct IsPoint                : std::false_type {};
 template<class T> struct IsPoint<Point2d_<T>>   : std::true_type  {};
 
-- 
2.43.0


From 7d3824eb6e644434d85309ed8b88bfa97a99c3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:24 +0000
Subject: [PATCH 39/60] fix: bounding box with a polyline having aligned points
 was refused, or ignored them

---
 homog2d.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index ab0878c..cc107b5 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10152,12 +10152,19 @@ getPointPair( const T& poly )
 
 	if( poly.size() == 0 )
 		HOMOG2D_THROW_ERROR_1( "cannot compute point pair of empty Polyline" );
-	if( poly.size() == 2 )
-	{
-		const auto& pts = poly.getPts();
-		return std::make_pair( pts[0], pts[1] );
-	}
-	return priv::getBB_Points( poly.getPts() );
+// the points can be aligned horizontally or vertically here: the common bounding box may have an area anyway
+	const auto& pts = poly.getPts();
+	auto mm_x = std::minmax_element( pts.begin(), pts.end(),
+		[]( const auto& pt1, const auto& pt2 ){ return pt1.getX() < pt2.getX(); }
+	);
+	auto mm_y = std::minmax_element( pts.begin(), pts.end(),
+		[]( const auto& pt1, const auto& pt2 ){ return pt1.getY() < pt2.getY(); }
+	);
+	using FPT = typename T::FType;
+	return PointPair_<FPT>(
+		Point2d_<FPT>( mm_x.first->getX(),  mm_y.first->getY()  ),
+		Point2d_<FPT>( mm_x.second->getX(), mm_y.second->getY() )
+	);
 }
 
 /// Returns pair of points defining a BB of a Point2d
-- 
2.43.0


From c8afb8e20cbd9e2246c399bdf553d9955720703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 40/60] fix: minimum enclosing circle could leave points out,
 or be refused for nearly aligned points

---
 homog2d.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index cc107b5..6d3457c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5681,20 +5681,24 @@ Circle_<FPT>::p_min_circle_trivial( const std::vector<T>& P ) const
 	if( P.size() == 2 )
 		return Circle_<HOMOG2D_INUMTYPE>( P[0], P[1] );
 
-// To check if MEC can be determined by 2 points only
-	for( int i=0; i<3; i++ )
-		for( int j=i+1; j<3; j++ )
-		{
-			auto c = Circle_<HOMOG2D_INUMTYPE>( P[i], P[j] );
-			if( priv::is_valid_circle( c, P ) )
-				return c;
-		}
 	if( areCollinear( P[0], P[1], P[2] ) )
 	{
 		auto pts = priv::getLargestDistancePoints( P[0], P[1], P[2] );
 		return Circle_<HOMOG2D_INUMTYPE>( pts[0], pts[1] );
 	}
-	return Circle_<HOMOG2D_INUMTYPE>( P[0], P[1], P[2] ); // circle from 3 points
+
+// the three points must be on the circle (even if one through two of them encloses the third)
+	auto ux = P[1].getX() - P[0].getX();
+	auto uy = P[1].getY() - P[0].getY();
+	auto vx = P[2].getX() - P[0].getX();
+	auto vy = P[2].getY() - P[0].getY();
+	auto det = 2. * ( ux * vy - uy * vx );
+	auto u2  = ux * ux + uy * uy;
+	auto v2  = vx * vx + vy * vy;
+	Circle_<HOMOG2D_INUMTYPE> c;
+	c.center().set( P[0].getX() + ( vy * u2 - uy * v2 ) / det, P[0].getY() + ( ux * v2 - vx * u2 ) / det );
+	c.radius() = std::max( std::max( c.center().distTo( P[0] ), c.center().distTo( P[1] ) ), c.center().distTo( P[2] ) );
+	return c;
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From 6eff6e57fb8f432decc34689184644a27b846b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:49 +0000
Subject: [PATCH 41/60] fix: getOrthogSegment() did not compile for a numeric
 type other than the default

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6d3457c..f9aa59b 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9036,7 +9036,7 @@ LPBase<LP,FPT>::getOrthogSegment( const Point2d_<FPT2>& pt ) const
 	if( dist < thr::nullDistance() )   // sanity check
 		HOMOG2D_THROW_ERROR_1( "unable to compute segment, distance too small=" << dist );
 #endif
-	auto pair_lines = getParallelLines( dist );
+	auto pair_lines = src.getParallelLines( dist );
 
 // determine on which of the two parallel lines does the point lie?
 	Line2d_<HOMOG2D_INUMTYPE>* pline = &pair_lines.first;
-- 
2.43.0


From 74801b3b0ae939713cfb0851bce293945214b685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:49 +0000
Subject: [PATCH 42/60] fix: setting a point or line with invalid values left
 it modified

---
 homog2d.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index f9aa59b..e75c7f7 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -3911,10 +3911,12 @@ This will call one of the two overloads of \c impl_init_1_Point(), depending on
 		HOMOG2D_CHECK_IS_NUMBER(T0);
 		HOMOG2D_CHECK_IS_NUMBER(T1);
 		HOMOG2D_CHECK_IS_NUMBER(T2);
-		_v[0] = v0;
-		_v[1] = v1;
-		_v[2] = v2;
-		p_normalizePL();
+		LPBase<LP,FPT> tmp;     // so that nothing is changed if the values are invalid
+		tmp._v[0] = v0;
+		tmp._v[1] = v1;
+		tmp._v[2] = v2;
+		tmp.p_normalizePL();
+		_v = tmp._v;
 	}
 
 /// Constructor of line from 4 values x1,y1,x2,y2
-- 
2.43.0


From bfb1ddadbd4900a4d709102177853953bea5152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:49 +0000
Subject: [PATCH 43/60] fix: parameters of an ellipse were refused or wrong
 after a large change of scale

---
 homog2d.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index e75c7f7..e6564b8 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8606,9 +8606,10 @@ Ellipse_<FPT>::p_computeParams() const
 	detail::EllParams<T> par;  // theta already set to zero
 
 	auto denom = B*B - (HOMOG2D_INUMTYPE)4. * A * C;
+	auto ApC   = A+C; // the matrix is defined up to a scale factor: thresholds are relative to this
 
 #ifndef HOMOG2D_NOCHECKS
-	if( homog2d_abs(denom) < thr::nullDenom() )
+	if( homog2d_abs(denom) < thr::nullDeter() * ApC * ApC )
 		HOMOG2D_THROW_ERROR_1(
 			"unable to compute parameters, denom=" << std::scientific << std::setprecision(15) << denom
 		);
@@ -8627,7 +8628,7 @@ Ellipse_<FPT>::p_computeParams() const
 
 	par.a2 = par.a * par.a;
 	par.b2 = par.b * par.b;
-	if( homog2d_abs(B) < thr::nullDenom() )
+	if( homog2d_abs(B) < thr::nullDenom() * homog2d_abs(ApC) )
 	{
 		if( A > C )
 			par.theta = M_PI / 2.;
-- 
2.43.0


From fc13a5c9b3aa502073bae7fd5bc58ec9a928740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:49 +0000
Subject: [PATCH 44/60] fix: SVG path: an incomplete number was accepted

---
 homog2d.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index e6564b8..0c9bc1f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12881,7 +12881,11 @@ struct SvgValuesBuffer
 	}
 	void addValue( std::string elem )
 	{
-		_values.push_back( std::stod(elem) );
+		size_t nb = 0;
+		auto v = std::stod( elem, &nb );
+		if( nb != elem.size() )             // incomplete number, such as "1e"
+			HOMOG2D_THROW_ERROR_1( "SVG path: invalid number -" << elem << '-' );
+		_values.push_back( v );
 	}
 };
 
-- 
2.43.0


From 9e5b2d5a7edd04024a0c29fef4b500040337e021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:49 +0000
Subject: [PATCH 45/60] fix: getCvPtd() and getCvPtf() truncated coordinates to
 integers

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 0c9bc1f..7727ecd 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4455,8 +4455,8 @@ public:
 	}
 
 	cv::Point2i getCvPti() const { return impl_getPt<cv::Point2i>( detail::BaseHelper<typename typ::IsPoint>() ); }
-	cv::Point2i getCvPtd() const { return impl_getPt<cv::Point2d>( detail::BaseHelper<typename typ::IsPoint>() ); }
-	cv::Point2i getCvPtf() const { return impl_getPt<cv::Point2f>( detail::BaseHelper<typename typ::IsPoint>() ); }
+	cv::Point2d getCvPtd() const { return impl_getPt<cv::Point2d>( detail::BaseHelper<typename typ::IsPoint>() ); }
+	cv::Point2f getCvPtf() const { return impl_getPt<cv::Point2f>( detail::BaseHelper<typename typ::IsPoint>() ); }
 
 /// Constructor: build point or line from a single OpenCv point.
 	template<typename T>
-- 
2.43.0


From bdd73e2fdfc4147077c67ef96255ed6bcd31fd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:14 +0000
Subject: [PATCH 46/60] fix: clearing a SVG image with a grey level aborted

---
 homog2d.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 7727ecd..cdb03ce 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -861,6 +861,14 @@ Image<SvgImage>::clear( uint8_t, uint8_t, uint8_t )
 	_realImg._svgString.clear();
 }
 
+template <>
+inline
+void
+Image<SvgImage>::clear( uint8_t col )
+{
+	clear( col, col, col );
+}
+
 #ifdef HOMOG2D_USE_OPENCV
 template <>
 inline
-- 
2.43.0


From 00030e3a0a1672639cb0d825b1535f4f64fd9f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:14 +0000
Subject: [PATCH 47/60] fix: text holding special characters made an ill-formed
 SVG file

---
 homog2d.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index cdb03ce..8b318f6 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12125,6 +12125,15 @@ inline
 void
 img::Image<img::SvgImage>::drawText( std::string str, Point2d_<float> pt, img::DrawParams dp )
 {
+	std::string txt;           // some characters can not appear as is in a svg file
+	for( auto c: str )
+		switch( c )
+		{
+			case '&': txt += "&amp;"; break;
+			case '<': txt += "&lt;";  break;
+			case '>': txt += "&gt;";  break;
+			default:  txt += c;
+		}
 	getReal()._svgString << "<text x=\"" << pt.getX()
 		<< "\" y=\"" << pt.getY()
 		<< "\" font-size=\"" << dp._dpValues._fontSize << "px"
@@ -12132,7 +12141,7 @@ img::Image<img::SvgImage>::drawText( std::string str, Point2d_<float> pt, img::D
 			<< std::setw(2) << (int)dp.color().r
 			<< std::setw(2) << (int)dp.color().g
 			<< std::setw(2) << (int)dp.color().b
-		<< std::dec << "\">" << str << "</text>\n";
+		<< std::dec << "\">" << txt << "</text>\n";
 }
 
 #ifdef HOMOG2D_USE_OPENCV
-- 
2.43.0


From 96638ad89cdda4a2586ddf4bd14cecd31cce341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:14 +0000
Subject: [PATCH 48/60] fix: angles of polylines were drawn with default
 settings, one missing in SVG

---
 homog2d.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 8b318f6..db86b5f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12075,7 +12075,7 @@ PolylineBase<PLT,FPT>::draw( img::Image<cv::Mat>& im, img::DrawParams dp ) const
 			auto seg2 = osegs[i+1];
 			auto angle = getAngle( seg1, seg2 );
 //			std::cout << "angle " << i << "=" << angle*180/3.1415 << "\n";
-			drawText( im, std::to_string(angle * 180./M_PI), pts[i+1] );
+			drawText( im, std::to_string(angle * 180./M_PI), pts[i+1], dp );
 		}
 		if( isClosed() )
 		{
@@ -12083,7 +12083,7 @@ PolylineBase<PLT,FPT>::draw( img::Image<cv::Mat>& im, img::DrawParams dp ) const
 			auto seg2 = osegs.front();
 			auto angle = getAngle( seg1, seg2 );
 //			std::cout << "final angle " << "=" << angle*180/3.1415 << "\n";
-			drawText( im, std::to_string(angle * 180./M_PI), pts[0] );
+			drawText( im, std::to_string(angle * 180./M_PI), pts[0], dp );
 		}
 	}
 }
@@ -12454,7 +12454,12 @@ PolylineBase<PLT,FPT>::draw( img::Image<img::SvgImage>& im, img::DrawParams dp )
 			auto seg2 = osegs[i+1];
 			auto angle = getAngle( seg1, seg2 );
 //			std::cout << "angle " << i << "=" << angle*180/3.1415 << "\n";
-			drawText( im, std::to_string(angle * 180./M_PI), pts[i+1] );
+			drawText( im, std::to_string(angle * 180./M_PI), pts[i+1], dp );
+		}
+		if( isClosed() )
+		{
+			auto angle = getAngle( osegs.back(), osegs.front() );
+			drawText( im, std::to_string(angle * 180./M_PI), pts[0], dp );
 		}
 	}
 
-- 
2.43.0


From 27fd51bfa5ce80a167c23a7e9c533231995a8f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:40 +0000
Subject: [PATCH 49/60] fix: importing an empty Boost polygon crashed, a
 redundant one was accepted

---
 homog2d.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index db86b5f..d33f6ea 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6204,6 +6204,8 @@ this relates to the actual fact that last point is equal to first point.
 	)
 	{
 		const auto& outer = bgpol.outer();
+		if( outer.empty() )
+			return;
 		bool isClosed = false;
 		auto ptf = outer.front();
 		auto ptb = outer.back();
@@ -6220,14 +6222,16 @@ this should work !!! (but doesn't...)
 		if( isClosed && std::is_same_v<PLT,typ::IsOpen> ) // cannot build an open polyline from a closed one
 			HOMOG2D_THROW_ERROR_1( "unable to convert a closed boost::polygon into an OPolyline" );
 
-		_plinevec.reserve( outer.size() - isClosed );
+		std::vector<Point2d_<FPT>> vpts;
+		vpts.reserve( outer.size() - isClosed );
 		for( auto it=outer.begin(); it!=outer.end()-isClosed; it++ )
 		{
 			const auto& bgpt = *it;
-			_plinevec.emplace_back(
+			vpts.emplace_back(
 				Point2d_<FPT>( boost::geometry::get<0>(bgpt), boost::geometry::get<1>(bgpt) )
 			);
 		}
+		set( vpts );      // does the same checks as with the other constructors
 	}
 #endif
 
-- 
2.43.0


From 14070dce6875e9cd45d9e4f6d39541e1ca394039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:40 +0000
Subject: [PATCH 50/60] fix: building a line from two OpenCV points did not
 compile

---
 homog2d.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index d33f6ea..ebf0bba 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4466,6 +4466,14 @@ public:
 	cv::Point2d getCvPtd() const { return impl_getPt<cv::Point2d>( detail::BaseHelper<typename typ::IsPoint>() ); }
 	cv::Point2f getCvPtf() const { return impl_getPt<cv::Point2f>( detail::BaseHelper<typename typ::IsPoint>() ); }
 
+/// Constructor: build a line from two OpenCv points
+	template<typename T1,typename T2>
+	LPBase( const cv::Point_<T1>& pt1, const cv::Point_<T2>& pt2 )
+	{
+		static_assert( std::is_same_v<LP,typ::IsLine>, "Invalid: you cannot build a point from two points" );
+		*this = Point2d_<HOMOG2D_INUMTYPE>(pt1) * Point2d_<HOMOG2D_INUMTYPE>(pt2);
+	}
+
 /// Constructor: build point or line from a single OpenCv point.
 	template<typename T>
 	LPBase( cv::Point_<T> pt )
-- 
2.43.0


From a4f7ec475f8bd87ba7af60a5303b8abf680de700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:40 +0000
Subject: [PATCH 51/60] fix: size of an image built on an OpenCV matrix was
 always 500x500

---
 homog2d.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index ebf0bba..10c5edc 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -792,6 +792,12 @@ private:
 }; // class Image
 
 #ifdef HOMOG2D_USE_OPENCV
+template <>
+inline
+Image<cv::Mat>::Image( cv::Mat& m )
+	: _realImg( m ), _width( m.cols ), _height( m.rows )
+{}
+
 template <>
 inline
 Image<cv::Mat>::Image( size_t width, size_t height )
-- 
2.43.0


From df392cbd0d33c90e13d8e05be0ef61e64583026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:40 +0000
Subject: [PATCH 52/60] fix: printing through a root pointer read any object as
 its double version

---
 homog2d.hpp | 119 ++++++++++++++++++++++------------------------------
 1 file changed, 51 insertions(+), 68 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 10c5edc..6643bcf 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1450,6 +1450,7 @@ public:
 	virtual HOMOG2D_INUMTYPE area()   const = 0;
 	virtual Type             type()   const = 0;
 	virtual size_t           size()   const = 0;
+	virtual void             print( std::ostream& ) const = 0;
 
 	friend std::ostream& operator << ( std::ostream& f, const Root& p );
 	virtual ~Root() {}
@@ -2252,6 +2253,14 @@ public:
 		return Type::Ellipse;
 	}
 
+#ifdef HOMOG2D_ENABLE_PRTP
+/// Prints the object, see rtp::Root
+	void print( std::ostream& f ) const
+	{
+		f << *this;
+	}
+#endif
+
 	template<typename T> friend class Ellipse_;
 
 	template<typename FPT1,typename FPT2>
@@ -2704,6 +2713,14 @@ public:
 		return Type::FRect;
 	}
 
+#ifdef HOMOG2D_ENABLE_PRTP
+/// Prints the object, see rtp::Root
+	void print( std::ostream& f ) const
+	{
+		f << *this;
+	}
+#endif
+
 	template<typename T> friend class FRect_;
 
 private:
@@ -3221,6 +3238,14 @@ public:
 		return Type::Circle;
 	}
 
+#ifdef HOMOG2D_ENABLE_PRTP
+/// Prints the object, see rtp::Root
+	void print( std::ostream& f ) const
+	{
+		f << *this;
+	}
+#endif
+
 	template<typename T> friend class Circle_;
 
 private:
@@ -4091,6 +4116,14 @@ public:
 			return Type::Line2d;
 	}
 
+#ifdef HOMOG2D_ENABLE_PRTP
+/// Prints the object, see rtp::Root
+	void print( std::ostream& f ) const
+	{
+		f << *this;
+	}
+#endif
+
 	size_t size() const
 	{
 		if constexpr( std::is_same_v<LP,typ::IsPoint> )
@@ -4922,6 +4955,14 @@ public:
 			return Type::OSegment;
 	}
 
+#ifdef HOMOG2D_ENABLE_PRTP
+/// Prints the object, see rtp::Root
+	void print( std::ostream& f ) const
+	{
+		f << *this;
+	}
+#endif
+
 private:
 	Point2d_<FPT> _ptS1, _ptS2;
 
@@ -6128,6 +6169,14 @@ public:
 			return Type::OPolyline;
 	}
 
+#ifdef HOMOG2D_ENABLE_PRTP
+/// Prints the object, see rtp::Root
+	void print( std::ostream& f ) const
+	{
+		f << *this;
+	}
+#endif
+
 private:
 	mutable std::vector<Point2d_<FPT>> _plinevec;
 	mutable bool _plIsNormalized = false;
@@ -12326,79 +12375,13 @@ SegVec<SV,FPT>::draw( img::Image<img::SvgImage>& im, img::DrawParams dp ) const
 //------------------------------------------------------------------
 #ifdef HOMOG2D_ENABLE_PRTP
 namespace rtp {
-/// Stream operator for \c Root type
-/** \todo replace this by a call to a virtual function `print()`
-(that needs to be defined in all the child classes as:
-\code
-void print( std::ostream& f )
-{
-	f << *this;
-}
-\endcode
-*/
+/// Stream operator for \c Root type, calls the one of the actual type of the object
 inline
 std::ostream&
 operator << ( std::ostream& f, const Root& p )
 {
 	f << "type="<< getString( p.type() ) << std::endl;
-	switch( p.type() )
-	{
-		case Type::Circle:
-		{
-			const Circle_<double>* p2 = static_cast<const Circle_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::Ellipse:
-		{
-			const Ellipse_<double>* p2 = static_cast<const Ellipse_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::FRect:
-		{
-			const FRect_<double>* p2 = static_cast<const FRect_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::Line2d:
-		{
-			const Line2d_<double>* p2 = static_cast<const Line2d_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::Point2d:
-		{
-			const Point2d_<double>* p2 = static_cast<const Point2d_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::Segment:
-		{
-			const Segment_<double>* p2 = static_cast<const Segment_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::OSegment:
-		{
-			const OSegment_<double>* p2 = static_cast<const OSegment_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::OPolyline:
-		{
-			const OPolyline_<double>* p2 = static_cast<const OPolyline_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		case Type::CPolyline:
-		{
-			const CPolyline_<double>* p2 = static_cast<const CPolyline_<double>*>( &p );
-			f << *p2;
-		}
-		break;
-		default: assert(0);
-	}
+	p.print( f );
 	return f;
 }
 
-- 
2.43.0


From 4b3cf9b7d358627f6f8e67a314f62959fc9f8de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:09 +0000
Subject: [PATCH 53/60] fix: disabling warnings at build time made the header
 fail to compile

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6643bcf..9ee534a 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -152,7 +152,7 @@ See https://github.com/skramm/homog2d
 	if( err::printWarnings() == true ) \
 		std::cerr << "homog2d warning (" << ++err::warningCount() << "), l. " << __LINE__ << ": " << a << "\n";
 #else
-#define HOMOG2D_LOG_WARNING
+#define HOMOG2D_LOG_WARNING( a )
 #endif
 
 /*
-- 
2.43.0


From 6b5690287be84ec4403e5d9a65583ab8c125ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:07 +0000
Subject: [PATCH 54/60] fix: circle built from three points, one of these being
 its own center

---
 homog2d.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 9ee534a..577b940 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5693,8 +5693,10 @@ Circle_<FPT>::set(
 	if( li1.isParallelTo(li2) )
 		HOMOG2D_THROW_ERROR_1( "unable, bisector lines are parallel" )
 #endif
-	center() = li1 * li2;
-	radius() = center().distTo(pt1);
+	Point2d_<HOMOG2D_INUMTYPE> pc = li1 * li2;
+	HOMOG2D_INUMTYPE rad = pc.distTo(pt1);   // before editing the center: it can be one of the arguments
+	center() = pc;
+	radius() = rad;
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From b3d918db4d09a22d89f7d27c06d4fd0fb23725a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:15 +0000
Subject: [PATCH 55/60] fix: offset polygon: throws or has reversed edges when
 the distance is too high

---
 homog2d.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 577b940..4e362a1 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6801,6 +6801,7 @@ PolylineBase<PLT,FPT>::getOffsetPoly( T dist, OffsetPolyParams params ) const
 //	bool paraLines = false;
 
 	std::vector<Point2d_<FPT>> v_out;
+	std::vector<std::pair<size_t,size_t>> v_edges; // for each source segment kept: index of its first point in output, and index of the segment
 	auto osegs = getOSegs();
 	auto oseg1 = osegs.at(current);
 	do
@@ -6846,6 +6847,7 @@ PolylineBase<PLT,FPT>::getOffsetPoly( T dist, OffsetPolyParams params ) const
 				if( pt_cut1 != pt_cut2 )        // so we don't add two identical pts (in case they were computed as such)
 					v_out.push_back( pt_cut2 );
 			}
+			v_edges.push_back( std::make_pair( v_out.size()-1, next ) );
 		}
 //		else
 //			std::cout << "parallel!\n";
@@ -6855,6 +6857,20 @@ PolylineBase<PLT,FPT>::getOffsetPoly( T dist, OffsetPolyParams params ) const
 	}
 	while( current<size() ); //&& !paraLines );
 
+// if the distance is too high, some segments vanish, or are reversed
+	for( const auto& edge: v_edges )
+	{
+		const auto& ptA = v_out[edge.first];
+		const auto& ptB = v_out[(edge.first+1) % v_out.size()];
+		auto pts = osegs[edge.second].getPts();
+		auto dp = ( ptB.getX()-ptA.getX() ) * ( pts.second.getX()-pts.first.getX() )
+			+ ( ptB.getY()-ptA.getY() ) * ( pts.second.getY()-pts.first.getY() );
+		if( ptA == ptB || dp <= 0. )
+		{
+			HOMOG2D_LOG_WARNING( "Failure, distance value is too high, returning empty CPolyline" );
+			return PolylineBase<typ::IsClosed,FPT>();
+		}
+	}
 	return PolylineBase<typ::IsClosed,FPT>( v_out );
 }
 
-- 
2.43.0


From dc69068bb87cc9d9ecc628a1dd53e39013e8f268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:15 +0000
Subject: [PATCH 56/60] fix: line normalization: sign of first value not
 changed with the two others

---
 homog2d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4e362a1..0f82489 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8981,6 +8981,7 @@ LPBase<LP,FPT>::impl_normalize( const detail::BaseHelper<typename typ::IsLine>&
 	if( homog2d_abs(_v[0]) < thr::nullDenom() ) // then, change sign so that b>0
 		if( _v[1] < 0 )
 		{
+			const_cast<LPBase<LP,FPT>*>(this)->_v[0] = - _v[0];
 			const_cast<LPBase<LP,FPT>*>(this)->_v[1] = - _v[1];
 			const_cast<LPBase<LP,FPT>*>(this)->_v[2] = - _v[2];
 		}
-- 
2.43.0


From ca71730ddeb7fcd236c978a2c61880d88975fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:15 +0000
Subject: [PATCH 57/60] fix: showing points of a polyline on an OpenCV image
 changed the color of its angles

---
 homog2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 0f82489..b88fcf3 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12131,7 +12131,8 @@ PolylineBase<PLT,FPT>::draw( img::Image<cv::Mat>& im, img::DrawParams dp ) const
 	if( dp._dpValues._showPoints )
 	{
 		auto newPointStyle = dp._dpValues.nextPointStyle();
-		getPoint(0).draw( im, dp.setColor(10,10,10).setPointStyle( newPointStyle ) );
+		auto dp0(dp); // the other drawings done below need the original color
+		getPoint(0).draw( im, dp0.setColor(10,10,10).setPointStyle( newPointStyle ) );
 	}
 
 	if( dp._dpValues._showIndex )
-- 
2.43.0


From 076509d86a35f3c3b98ae6507432b9a505fbc28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:35 +0000
Subject: [PATCH 58/60] fix: output of multiple intersection points written on
 std::cout instead of the given stream

---
 homog2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index b88fcf3..4d0a818 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2657,7 +2657,8 @@ public:
 	operator << ( std::ostream& f, const IntersectM& i )
 	{
 		f << "IntersectM: size=" << i.size() << '\n';
-		priv::printVector( i._vecInters );
+		for( const auto& pt: i._vecInters )
+			f << pt << '-';
 		return f;
 	}
 };
-- 
2.43.0


From 6eabde387282eb6b550ec27a021dda78a4efaa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:35 +0000
Subject: [PATCH 59/60] fix: SVG import: crash on a polygon or polyline whose
 attribute 'points' is empty

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4d0a818..845223c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -13102,6 +13102,8 @@ importSvgPoints( const tinyxml2::XMLElement& e )
 {
 	auto pts_str = svgp::getAttribString( "points", e );
 	auto vec_pts = svgp::parsePoints( pts_str );
+	if( vec_pts.empty() )
+		throw std::string("h2d::img::svg Error: no points in tag ") + e.Name();
 
 	if( vec_pts.front() == vec_pts.back() ) // if first point equal to last
 		vec_pts.pop_back();                  //  point, remove last point
-- 
2.43.0


From b4f4afd5af45a78469c14c99cc6053c19cd3bae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:35 +0000
Subject: [PATCH 60/60] fix: SVG image size and attributes: null pointer on a
 document with no root element

---
 homog2d.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 845223c..0025d34 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -13245,6 +13245,8 @@ void
 printFileAttrib( const tinyxml2::XMLDocument& doc )
 {
 	const tinyxml2::XMLElement* root = doc.RootElement();
+	if( !root )
+		HOMOG2D_THROW_ERROR_1( "no root element in SVG document" );
 	const tinyxml2::XMLAttribute* pAttrib = root->FirstAttribute();
 	size_t i=0;
 	while( pAttrib )
@@ -13260,6 +13262,8 @@ auto
 getImgSize( const tinyxml2::XMLDocument& doc )
 {
 	const tinyxml2::XMLElement* root = doc.RootElement();
+	if( !root )
+		HOMOG2D_THROW_ERROR_1( "no root element in SVG document" );
 	const tinyxml2::XMLAttribute* pAttrib = root->FirstAttribute();
 	double w = -1., h = -1.;
 	while( pAttrib )
-- 
2.43.0

