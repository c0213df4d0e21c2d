From 12f8562b3d546b492faf229ee73eea4a7cc8d354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:40 +0000
Subject: [PATCH 001/105] fix: quaternion from rotation matrix near half turns,
 Euler angles at the south pole

The trace branch divided by rounding noise for rotations by (nearly) 180 degrees,
and getEulerAngles( seq ) negated the first angle when the second one is -90 degrees.
---
 src/utMath/Quaternion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Quaternion.cpp b/src/utMath/Quaternion.cpp
index 793c624..8dc07dd 100644
--- a/src/utMath/Quaternion.cpp
+++ b/src/utMath/Quaternion.cpp
@@ -37,7 +37,7 @@ Quaternion::Quaternion( const Math::Matrix< double, 0, 0 >& mat )
 	double S, X, Y, Z, W;
 	double T = 1.0 + mat(0,0) + mat(1,1) + mat(2,2);
 
-	if (T > 0) {
+	if (T > 1e-4) { // smaller values are dominated by rounding errors (rotations by about 180 degrees)
 		S = sqrt(T) * 2;
 		X = ( mat(1,2) - mat(2,1) ) / S;
 		Y = ( mat(2,0) - mat(0,2) ) / S;
@@ -188,7 +188,7 @@ Vector< double, 3 > Quaternion::getEulerAngles( Quaternion::t_EulerSequence seq
 	// Singularity at south pole
 	if ( beta < -0.998 ) 
 	{
-		alpha = -2 * atan2( x_, w_ );
+		alpha = 2 * atan2( x_, w_ );
 		beta  = -boost::math::constants::pi<double>() / 2;
 		gamma = 0;
 
-- 
2.43.0


From e14350b96078eeab8dabb56e14fdf09660ddc329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:40 +0000
Subject: [PATCH 002/105] fix: quaternion angle and axis-angle conversions of
 the identity are not finite

angle() and toAxisAngle() took acos() of values above one by rounding, and the
axis-angle constructor divided by the zero axis toAxisAngle() returns for the identity.
---
 src/utMath/Quaternion.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utMath/Quaternion.h b/src/utMath/Quaternion.h
index 2588f54..4f8142d 100644
--- a/src/utMath/Quaternion.h
+++ b/src/utMath/Quaternion.h
@@ -37,6 +37,7 @@
 #include <utCore.h>
 #include "Vector.h"
 #include <math.h>
+#include <algorithm>
 
 
 // WARNING: all boost/serialization headers should be
@@ -97,7 +98,8 @@ class UBITRACK_EXPORT Quaternion
 		Quaternion( const Vector< double, 3 >& axis, const double angle )
 		{
 			double length = ::boost::numeric::ublas::norm_2(axis);
-			Vector< double, 3 > normAxis = axis*(sin(angle/2.0)/length);
+			// a zero axis (e.g. from toAxisAngle of the identity) carries no rotation
+			Vector< double, 3 > normAxis = axis*( length > 0 ? sin(angle/2.0)/length : 0.0 );
 
 			a = cos(angle/2.0);
 			b = normAxis(0);
@@ -177,7 +179,7 @@ class UBITRACK_EXPORT Quaternion
 		 * @return the angle of the rotation represented by the quaternion
 		 */
 		double angle() const
-		{ return 2 * acos( w() > 0 ? w() : -w() ); }
+		{ return 2 * acos( std::min( 1.0, w() > 0 ? w() : -w() ) ); }
 
 		/** 
 		 * sets the rotation of a given matrix to the value of the quaternion
@@ -323,9 +325,10 @@ template< typename T >
 void Quaternion::toAxisAngle( Math::Vector< T, 3 >& axis, T& angle )
 {
 	// assuming quaternion normalised then w is less than 1, so term always positive.
-	angle = 2 * acos( a );
+	// (rounding may bring it slightly above, though)
+	angle = 2 * acos( std::max( -1.0, std::min( 1.0, a ) ) );
 	
-	double s = sqrt( 1 - a*a );
+	double s = sqrt( std::max( 0.0, 1 - a*a ) );
 	// test to avoid divide by zero, s is always positive due to sqrt
 	if (s < 0.001) { 
 		// if s close to zero then direction of axis not important
-- 
2.43.0


From ad83acf76d8d791878c34c72675caa765f940540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:16 +0000
Subject: [PATCH 003/105] fix: RotationCast of half turns and of the identity

Matrix to quaternion took the signs from differences that vanish at 180 degrees,
matrix to axis-angle returned no rotation or NaN there, and quaternion to axis-angle
divided by zero for (nearly) no rotation.
---
 src/utMath/Util/RotationCast.h | 47 +++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/utMath/Util/RotationCast.h b/src/utMath/Util/RotationCast.h
index 5530956..d67710f 100644
--- a/src/utMath/Util/RotationCast.h
+++ b/src/utMath/Util/RotationCast.h
@@ -104,9 +104,27 @@ struct RotationCast< Math::Quaternion >
 		const T qxt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 + m00div4 - m11div4 - m22div4 ) ) ) ); 
 		const T qyt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 - m00div4 + m11div4 - m22div4 ) ) ) ); 
 		const T qzt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 - m00div4 - m11div4 + m22div4 ) ) ) ); 
-		const T qx = ( matrix( 2, 1 ) - matrix( 1, 2 ) ) < 0 ? -qxt : qxt;
-		const T qy = ( matrix( 0, 2 ) - matrix( 2, 0 ) ) < 0 ? -qyt : qyt;
-		const T qz = ( matrix( 1, 0 ) - matrix( 0, 1 ) ) < 0 ? -qzt : qzt;
+		// The sign of the largest imaginary part relates it to the real part. The signs of the others are taken relative
+		// to it, since the differences of the off-diagonal elements vanish for rotations by 180 degrees.
+		T qx = qxt, qy = qyt, qz = qzt;
+		if( qxt >= qyt && qxt >= qzt )
+		{
+			qx = ( matrix( 2, 1 ) - matrix( 1, 2 ) ) < 0 ? -qxt : qxt;
+			qy = ( ( matrix( 0, 1 ) + matrix( 1, 0 ) ) < 0 ) != ( qx < 0 ) ? -qyt : qyt;
+			qz = ( ( matrix( 0, 2 ) + matrix( 2, 0 ) ) < 0 ) != ( qx < 0 ) ? -qzt : qzt;
+		}
+		else if( qyt >= qzt )
+		{
+			qy = ( matrix( 0, 2 ) - matrix( 2, 0 ) ) < 0 ? -qyt : qyt;
+			qx = ( ( matrix( 0, 1 ) + matrix( 1, 0 ) ) < 0 ) != ( qy < 0 ) ? -qxt : qxt;
+			qz = ( ( matrix( 1, 2 ) + matrix( 2, 1 ) ) < 0 ) != ( qy < 0 ) ? -qzt : qzt;
+		}
+		else
+		{
+			qz = ( matrix( 1, 0 ) - matrix( 0, 1 ) ) < 0 ? -qzt : qzt;
+			qx = ( ( matrix( 0, 2 ) + matrix( 2, 0 ) ) < 0 ) != ( qz < 0 ) ? -qxt : qxt;
+			qy = ( ( matrix( 1, 2 ) + matrix( 2, 1 ) ) < 0 ) != ( qz < 0 ) ? -qyt : qyt;
+		}
 		return return_type( qx, qy, qz, qw );
 	}
 	
@@ -165,8 +183,10 @@ struct RotationCast< Math::Vector< T, 4 > >
 	
 	return_type operator()( const Math::Quaternion & quat ) const
 	{
-		const T angle = 2 * std::acos( quat.w() );
-		const T divisor = std::sqrt( 1 - quat.w()*quat.w() );
+		const T divisor = std::sqrt( quat.x()*quat.x() + quat.y()*quat.y() + quat.z()*quat.z() );
+		if( divisor < 1e-10 )
+			return return_type( 0, 0, 0, 0 );
+		const T angle = 2 * std::atan2( divisor, static_cast< T >( quat.w() ) );
 		const T x = quat.x() / divisor;
 		const T y = quat.y() / divisor;
 		const T z = quat.z() / divisor;
@@ -197,21 +217,8 @@ struct RotationCast< Math::Vector< T, 4 > >
 		// return RotationCast< return_type >()( quat );
 		
 		/// @todo put in more checks, this transformation is not really reliable at the moment
-		const T angle = std::acos( ( matrix( 0, 0 ) + matrix( 1, 1 ) + matrix( 2, 2 ) - 1 ) / 2 );
-		if ( angle != angle || angle < 1e-10 )
-			return return_type( 0, 0, 0, 0 );
-		
-		//std::cout << "Angle " << angle ;
-		const T m2112 = matrix( 2, 1 ) - matrix( 1, 2 );
-		const T m0220 = matrix( 0, 2 ) - matrix( 2, 0 );
-		const T m1001 = matrix( 1, 0 ) - matrix( 0, 1 );
-		
-		const T divisor = sqrt( m2112*m2112 + m0220*m0220 + m1001*m1001 );
-		//std::cout << " Divisor " << divisor << "\n";
-		const T rx = m2112 / divisor;
-		const T ry = m0220 / divisor;
-		const T rz = m1001 / divisor;
-		return return_type( rx, ry, rz, angle );
+		// via the quaternion, which is also defined for rotations by 180 degrees
+		return (*this)( RotationCast< Math::Quaternion >()( matrix ) );
 		
 		// alternative way:
 		// const T divisor = 2*std::sin( angle ) ;//sqrt( m2112*m2112 + m0220*m0220 + m1001*m1001 );
-- 
2.43.0


From 4e6af8af0eea6bd7b6e9cd44b2b565a13fb1c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:26 +0000
Subject: [PATCH 004/105] fix: covariance of inverted poses, uncertain points
 and additive error vectors

ErrorPose inverse had the sign of the translation/rotation cross covariance wrong, invertMultiply propagated as if neither pose were inverted, pose times uncertain point dropped the uncertainty of the point, and the additive (7-vector) covariance was rotated by the conjugate
---
 src/utMath/ErrorPose.cpp | 211 ++++-----------------------------------
 1 file changed, 18 insertions(+), 193 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index d34f432..e33d742 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -114,21 +114,21 @@ void inversionJacobian( Matrix< double, 6, 6 >& j, const Pose& p )
 	j( 3, 0 ) = 0.;
 	j( 3, 1 ) = 0.;
 	j( 3, 2 ) = 0.;
-	j( 3, 3 ) = 1. + t5445 + t5446;
-	j( 3, 4 ) = 2. * t5364 * t5369 - 2. * t5362 * t5371;
-	j( 3, 5 ) = 2. * t5430;
+	j( 3, 3 ) =  - ( 1. + t5445 + t5446 );
+	j( 3, 4 ) =  - 2. * t5364 * t5369 + 2. * t5362 * t5371;
+	j( 3, 5 ) =  - 2. * t5430;
 	j( 4, 0 ) = 0.;
 	j( 4, 1 ) = 0.;
 	j( 4, 2 ) = 0.;
-	j( 4, 3 ) = 2. * t5373;
-	j( 4, 4 ) = 1. + t5446 + t5453;
-	j( 4, 5 ) =  - 2. * t5362 * t5364 + 2. * t5369 * t5371;
+	j( 4, 3 ) =  - 2. * t5373;
+	j( 4, 4 ) =  - ( 1. + t5446 + t5453 );
+	j( 4, 5 ) = 2. * t5362 * t5364 - 2. * t5369 * t5371;
 	j( 5, 0 ) = 0.;
 	j( 5, 1 ) = 0.;
 	j( 5, 2 ) = 0.;
-	j( 5, 3 ) =  - 2. * t5362 * t5369 + 2. * t5364 * t5371;
-	j( 5, 4 ) = 2. * t5410;
-	j( 5, 5 ) = 1. + t5445 + t5453;
+	j( 5, 3 ) = 2. * t5362 * t5369 - 2. * t5364 * t5371;
+	j( 5, 4 ) =  - 2. * t5410;
+	j( 5, 5 ) =  - ( 1. + t5445 + t5453 );
 }
 
 
@@ -290,174 +290,6 @@ void errorPoseTimesVectorJacobian( MT& j, const Pose& p, const Vector< double, 3
 	j( 2, 5 ) = 4 * ( t213 * (  - ( t212 * t214 ) + t216 * t228 ) + t221 * ( t222 + t259 ) );
 }
 
-void invertMultiplyJacobians( Matrix< double, 6, 6 >& j1, Matrix< double, 6, 6 >& j2, const Pose& p1, const Pose& p2 )
-{
-	double t701 = p2.rotation().y();
-	double t704 = p2.rotation().z();
-	double t710 = p2.rotation().w();
-	double t708 = p2.rotation().x();
-	double t705 = t704 * t704;
-	double t706 =  - 2 * t705;
-	double t720 = t708 * t708;
-	double t721 =  - 2 * t720;
-	double t702 = t701 * t701;
-	double t703 =  - 2 * t702;
-	j1( 0, 0 ) = 1 + t703 + t706;
-	j1( 0, 1 ) = 2 * ( t701 * t708 + t704 * t710 );
-	j1( 0, 2 ) = 2 * t704 * t708 - 2 * t701 * t710;
-	j1( 0, 3 ) = 0.;
-	j1( 0, 4 ) = 0.;
-	j1( 0, 5 ) = 0.;
-	j1( 1, 0 ) = 2 * t701 * t708 - 2 * t704 * t710;
-	j1( 1, 1 ) = 1 + t706 + t721;
-	j1( 1, 2 ) = 2 * ( t701 * t704 + t708 * t710 );
-	j1( 1, 3 ) = 0.;
-	j1( 1, 4 ) = 0.;
-	j1( 1, 5 ) = 0.;
-	j1( 2, 0 ) = 2 * ( t704 * t708 + t701 * t710 );
-	j1( 2, 1 ) = 2 * t701 * t704 - 2 * t708 * t710;
-	j1( 2, 2 ) = 1 + t703 + t721;
-	j1( 2, 3 ) = 0.;
-	j1( 2, 4 ) = 0.;
-	j1( 2, 5 ) = 0.;
-	j1( 3, 0 ) = 0.;
-	j1( 3, 1 ) = 0.;
-	j1( 3, 2 ) = 0.;
-	j1( 3, 3 ) = 1.;
-	j1( 3, 4 ) = 0.;
-	j1( 3, 5 ) = 0.;
-	j1( 4, 0 ) = 0.;
-	j1( 4, 1 ) = 0.;
-	j1( 4, 2 ) = 0.;
-	j1( 4, 3 ) = 0.;
-	j1( 4, 4 ) = 1.;
-	j1( 4, 5 ) = 0.;
-	j1( 5, 0 ) = 0.;
-	j1( 5, 1 ) = 0.;
-	j1( 5, 2 ) = 0.;
-	j1( 5, 3 ) = 0.;
-	j1( 5, 4 ) = 0.;
-	j1( 5, 5 ) = 1.;
-
-	double t788 = p2.rotation().y();
-	double t791 = p2.rotation().z();
-	double t797 = p2.rotation().w();
-	double t795 = p2.rotation().x();
-	double t804 = p2.translation()( 0 );
-	double t805 = p1.translation()( 0 );
-	double t806 =  - t805;
-	double t807 = t804 + t806;
-	double t810 = p2.translation()( 1 );
-	double t812 = p1.translation()( 1 );
-	double t818 = p2.translation()( 2 );
-	double t820 = p1.translation()( 2 );
-	double t817 = t795 * t795;
-	double t824 =  - t812;
-	double t825 = t810 + t824;
-	double t827 =  - t818;
-	double t828 = t820 + t827;
-	double t792 = t791 * t791;
-	double t793 = 2 * t792;
-	double t834 =  - 4 * t804;
-	double t835 = 4 * t805;
-	double t836 = t834 + t835;
-	double t837 = t788 * t836;
-	double t864 =  - t820;
-	double t865 = t818 + t864;
-	double t789 = t788 * t788;
-	double t857 = 4 * t795 * t825;
-	double t838 = 4 * t797 * t828;
-	double t850 = 2 * t817;
-	double t790 = 2 * t789;
-	double t860 =  - 4 * t810;
-	double t861 = 4 * t812;
-	double t862 = t860 + t861;
-	double t809 = 4 * t788 * t807;
-	double t863 = t791 * t862;
-	double t866 = 4 * t788 * t865;
-	double t889 = 4 * t797 * t865;
-	double t906 = p1.rotation().y();
-	double t907 = t906 * t906;
-	double t909 = p1.rotation().z();
-	double t910 = t909 * t909;
-	double t912 =  - 4 * t907;
-	double t913 =  - 4 * t910;
-	double t914 = 2 + t912 + t913;
-	double t919 = p1.rotation().w();
-	double t917 = p1.rotation().x();
-	double t918 = t906 * t917;
-	double t920 = t909 * t919;
-	double t921 = t918 + t920;
-	double t923 = t906 * t919;
-	double t924 =  - ( t909 * t917 );
-	double t925 = t923 + t924;
-	double t908 = 2 * t907;
-	double t911 = 2 * t910;
-	double t946 = 4 * t907;
-	double t947 = 4 * t910;
-	double t948 =  - 2 + t946 + t947;
-	double t949 = t788 * t948;
-	double t794 =  - 1 + t790 + t793;
-	double t976 = t917 * t919;
-	double t977 = t906 * t909;
-	double t978 = t976 + t977;
-	double t980 = t917 * t917;
-	double t981 = 4 * t980;
-	double t982 =  - 2 + t947 + t981;
-	double t992 =  - 4 * t980;
-	double t993 = 2 + t913 + t992;
-	double t973 =  - ( t909 * t919 );
-	double t974 = t918 + t973;
-	double t991 = 2 * t980;
-	double t1000 =  - ( t906 * t917 );
-	double t1001 = t1000 + t920;
-	double t938 = t909 * t917;
-	double t1025 =  - ( t906 * t909 );
-	double t1026 = t1025 + t976;
-	double t1023 =  - 2 + t946 + t981;
-	double t1021 = t923 + t938;
-	double t851 =  - 1 + t793 + t850;
-	double t963 =  - 2 * t907;
-	double t1030 = 2 + t912 + t992;
-	j2( 0, 0 ) = t794;
-	j2( 0, 1 ) =  - 2 * ( t788 * t795 + t791 * t797 );
-	j2( 0, 2 ) =  - 2 * t791 * t795 + 2 * t788 * t797;
-	j2( 0, 3 ) = 0.;
-	j2( 0, 4 ) = 4 * t791 * t795 * t807 + t797 * ( t809 + 4 * t795 * (  - t810 + t812 ) ) + t817 * (  - 4 * t818 + 4 * t820 ) + t788 * ( 4 * t791 * t825 + 4 * t788 * t828 );
-	j2( 0, 5 ) = 4 * t817 * t825 + 4 * t791 * ( t797 * t807 + t791 * t825 + t788 * t828 ) + t795 * ( t837 + t838 );
-	j2( 1, 0 ) =  - 2 * t788 * t795 + 2 * t791 * t797;
-	j2( 1, 1 ) = t851;
-	j2( 1, 2 ) =  - 2 * ( t788 * t791 + t795 * t797 );
-	j2( 1, 3 ) = t791 * t795 * t836 + t797 * ( t837 + t857 ) + 4 * t817 * t865 + t788 * ( t863 + t866 );
-	j2( 1, 4 ) = 0.;
-	j2( 1, 5 ) = t789 * t836 + t788 * ( t838 + t857 ) + t791 * ( 4 * t797 * t825 + t791 * t836 + 4 * t795 * t865 );
-	j2( 2, 0 ) =  - 2 * ( t791 * t795 + t788 * t797 );
-	j2( 2, 1 ) =  - 2 * t788 * t791 + 2 * t795 * t797;
-	j2( 2, 2 ) =  - 1 + t790 + t850;
-	j2( 2, 3 ) = t817 * t862 + t791 * ( t797 * t836 + t863 + t866 ) + t795 * ( t809 + t889 );
-	j2( 2, 4 ) = 4 * t789 * t807 + t791 * ( 4 * t791 * t807 + 4 * t795 * t828 + t797 * t862 ) + t788 * ( t795 * t862 + t889 );
-	j2( 2, 5 ) = 0.;
-	j2( 3, 0 ) = 0.;
-	j2( 3, 1 ) = 0.;
-	j2( 3, 2 ) = 0.;
-	j2( 3, 3 ) =  - 1 + t908 + t911 + t789 * t914 + t792 * t914 + 4 * t791 * (  - ( t797 * t921 ) + t795 * t925 ) - 4 * t788 * ( t795 * t921 + t797 * t925 );
-	j2( 3, 4 ) = 4 * t817 * t921 - 2 * ( t791 * t797 * (  - 1 + t908 + t911 ) - (  - 1 + t793 ) * t921 + 2 * t788 * t791 * (  - ( t906 * t919 ) + t938 ) ) + t795 * ( 4 * t797 * t925 + t949 );
-	j2( 3, 5 ) = t797 * ( 4 * t795 * t921 + t949 ) - 2 * ( ( 2 * t788 * t791 * t906 + t909 - 2 * t789 * t909 ) * t917 + ( (  - 1 + t790 ) * t906 + 2 * t788 * t791 * t909 ) * t919 + 2 * t817 * t925 + t791 * t795 * ( 1 - 2 * t910 + t963 ) );
-	j2( 4, 0 ) = 0.;
-	j2( 4, 1 ) = 0.;
-	j2( 4, 2 ) = 0.;
-	j2( 4, 3 ) = 2 * t794 * t974 + t795 * (  - 4 * t791 * t978 + t788 * t982 ) + t797 * ( 4 * t788 * t978 + t791 * t982 );
-	j2( 4, 4 ) =  - 1 + t911 - 4 * t791 * ( t1001 * t797 + t788 * t978 ) - 4 * t795 * ( t788 * t974 + t797 * t978 ) + t991 + t792 * t993 + t817 * t993;
-	j2( 4, 5 ) =  - 2 * t906 * t909 + 4 * t817 * t906 * t909 - 4 * t791 * t795 * t906 * t917 + 4 * t791 * t795 * t909 * t919 - 2 * t917 * t919 + 4 * t817 * t917 * t919 + 4 * t789 * t978 + 2 * t788 * t791 * (  - 1 + t911 + t991 ) + t797 * ( 4 * t1001 * t788 + t795 * t993 );
-	j2( 5, 0 ) = 0.;
-	j2( 5, 1 ) = 0.;
-	j2( 5, 2 ) = 0.;
-	j2( 5, 3 ) = 2 * t1021 * t794 + ( 4 * t1026 * t788 + t1023 * t791 ) * t795 + ( t1030 * t788 + 4 * t1026 * t791 ) * t797;
-	j2( 5, 4 ) = ( 4 * t1021 * t791 + t1023 * t795 ) * t797 - 2 * ( t1026 * t851 + t788 * ( 2 * t1021 * t795 + t791 * ( 1 + t963 - 2 * t980 ) ) );
-	j2( 5, 5 ) =  - 1 + t1030 * t789 + 4 * t788 * ( t1026 * t791 - t1021 * t797 ) - 4 * t795 * ( t1021 * t791 + t1026 * t797 ) + t1030 * t817 + t908 + t991;
-}
-
-
 /**
  * Helper function for creating the additive<->multiplicative error conversion jacobian
  */
@@ -584,26 +416,19 @@ ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::ErrorVector<
 	noalias( tmp ) = ublas::prod( jacobian, a.covariance() );
 	noalias( newCovariance ) = ublas::prod( tmp, ublas::trans( jacobian ) );
 
+	// add the rotated uncertainty of the point
+	const Matrix< double, 3, 3 > rotation( a.rotation() );
+	const Matrix< double, 3, 3 > rotated( ublas::prod( rotation, b.covariance ) );
+	noalias( newCovariance ) += ublas::prod( rotated, ublas::trans( rotation ) );
+
 	return ErrorVector< double, 3 >( static_cast< const Pose& >( a ) * b.value, newCovariance );
 }
 
 
 ErrorPose invertMultiply( const ErrorPose& a, const ErrorPose& b )
 {
-	// covariance transform
-	Matrix< double, 6, 6 > jacobian1;
-	Matrix< double, 6, 6 > jacobian2;
-	Matrix< double, 6, 6 > tmp;
-	Matrix< double, 6, 6 > newCovariance;
-	multiplicationJacobians( jacobian1, jacobian2, a, b );
-	
-	// here we could save some time by regarding the zero and identity blocks of the jacobians...
-	noalias( tmp ) = ublas::prod( jacobian1, a.covariance() );
-	noalias( newCovariance ) = ublas::prod( tmp, ublas::trans( jacobian1 ) );
-	noalias( tmp ) = ublas::prod( jacobian2, b.covariance() );
-	noalias( newCovariance ) += ublas::prod( tmp, ublas::trans( jacobian2 ) );
-
-	return ErrorPose( ~static_cast< const Pose& >( a ) * static_cast< const Pose& >( b ), newCovariance );
+	// the errors of both poses are independent, so the two steps can be propagated one after the other
+	return ~a * b;
 }
 
 
@@ -617,7 +442,7 @@ void ErrorPose::toAdditiveErrorVector( ErrorVector< double, 7 >& v )
 	// set the w variance to the sum of the x, y, and z rotation errors
 	v.covariance( 6, 6 ) = v.covariance( 3, 3 ) + v.covariance( 4, 4 ) + v.covariance( 5, 5 );
 
-	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( rotation() ), v, 3, 7, 3, 7 );
+	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( ~rotation() ), v, 3, 7, 3, 7 );
 }
 
 
@@ -625,7 +450,7 @@ ErrorPose ErrorPose::fromAdditiveErrorVector( const ErrorVector< double, 7 >& v
 {
 	Math::ErrorVector< double, 7 > p( v );
 	Quaternion q( Quaternion::fromVector( ublas::subrange( v.value, 3, 7 ) ) );
-	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( ~q ), p, 3, 7, 3, 7 );
+	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( q ), p, 3, 7, 3, 7 );
 	
 	return ErrorPose( Pose::fromVector( p.value ), ublas::subrange( p.covariance, 0, 6, 0, 6 ) );
 }
-- 
2.43.0


From 2e3465fac58ae2564cd3d0dcfb6407e4452d3967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:26 +0000
Subject: [PATCH 005/105] fix: backward propagation of diagonal and full
 covariances

backwardPropagationDiagonal and backwardPropagation weighted only the first rows of the Jacobian and multiplied with the untransposed eigenvectors
---
 src/utMath/Stochastic/BackwardPropagation.h | 22 ++++++++-------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/utMath/Stochastic/BackwardPropagation.h b/src/utMath/Stochastic/BackwardPropagation.h
index fbc25f0..5315636 100644
--- a/src/utMath/Stochastic/BackwardPropagation.h
+++ b/src/utMath/Stochastic/BackwardPropagation.h
@@ -56,9 +56,6 @@ namespace Ubitrack { namespace Math { namespace Stochastic {
  * @ingroup math
  * Performs backward propagation of covariance.
  * 
- * FIXME: this function doesn't seeem to work correctly. 
- * Use backwardPropagationIdentity, which gives different (and more plausible) results.
- *
  * Given a function y = f(x), known parameters x and a covariance matrix E of y, the backward propagation
  * computes the covariance C of the parameters x. size(E) >= size(C).
  *
@@ -70,9 +67,6 @@ namespace Ubitrack { namespace Math { namespace Stochastic {
 template< class MT1, class MT2, class F, class VT1 > 
 void backwardPropagation( MT1& result, const MT2& input, const F& function, const VT1& params )
 {
-	// !!!! FIXME: this function doesn't seeem to work.  !!!!!
-	// Use backwardPropagationIdentity, which gives different results
-	
 	namespace lapack = boost::numeric::bindings::lapack;
 	namespace blas = boost::numeric::bindings::blas;
 	namespace ublas = boost::numeric::ublas;
@@ -84,25 +78,25 @@ void backwardPropagation( MT1& result, const MT2& input, const F& function, cons
 	MatType jacobian( input.size1(), result.size1() );
 	function.jacobian( params, jacobian );
 	
-	// factorize E into Q^T * T * Q
+	// factorize E into Q * T * Q^T
 	MatType Q( input );
 	Math::Vector< VType > t( input.size1() );
 	lapack::syev( 'V', 'U', Q, t, lapack::minimal_workspace() );
 	
-	// compute Q * J
+	// compute Q^T * J
 	MatType QJ( jacobian.size1(), jacobian.size2() );
-	blas::gemm( Q, jacobian, QJ );
+	blas::gemm( 'T', 'N', VType( 1 ), Q, jacobian, VType( 0 ), QJ );
 
     // compute T^(-1/2)	
-	VType precision( t( 0 ) * VType( 1e-8 ) );
-	for ( unsigned i = 0; i < result.size1(); i++ )
+	VType precision( t( t.size() - 1 ) * VType( 1e-8 ) );
+	for ( unsigned i = 0; i < t.size(); i++ )
 		if ( t( i ) < precision )
 			t( i ) = 0;
 		else
 			t( i ) = 1 / sqrt( t( i ) );
 
-	// compute J' = T^(-1/2) * Q * J
-	for ( unsigned i = 0; i < result.size1(); i++ )
+	// compute J' = T^(-1/2) * Q^T * J
+	for ( unsigned i = 0; i < t.size(); i++ )
 		ublas::row( QJ, i ) *= t( i );
 
 	// perform SVD on QJ
@@ -235,7 +229,7 @@ void backwardPropagationDiagonal( MT1& result, const VT2& input, MT3& jacobian )
 	typedef typename Math::Matrix< VType, 0, 0 > MatType;
 
 	// multiply jacobian with E^(-1/2)
-	for ( unsigned i = 0; i < result.size1(); i++ )
+	for ( unsigned i = 0; i < jacobian.size1(); i++ )
 		ublas::row( jacobian, i ) *= VType( 1 ) / sqrt( input( i ) );
 
 	// perform SVD on jacobian
-- 
2.43.0


From 57cce69b6a732a783d580975dfa74836e21a3764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:40 +0000
Subject: [PATCH 006/105] fix: correct rotation columns of the 3D-3D pose
 Jacobian

z rows of the Jacobian with respect to the quaternion y and z components did not match the function
---
 src/utAlgorithm/PoseEstimation3D3D/Optimization.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
index 2ac36fe..a7878d2 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
@@ -173,8 +173,8 @@ public:
 			J( i*3+1, 6 ) = t14;
 			J( i*3+2, 2 ) = 1;
 			J( i*3+2, 3 ) = t14;
-			J( i*3+2, 4 ) = -t8+t9+t15;
-			J( i*3+2, 5 ) = t4+t5-t6;
+			J( i*3+2, 4 ) = -t8-t9+t15;
+			J( i*3+2, 5 ) = t7;
 			J( i*3+2, 6 ) = t2+t3-t16;
 			
 			J( i*3+0, 1 ) = J( i*3+0, 2 ) = 0;
-- 
2.43.0


From cb01431ac1a4b26baa5aeeaf8205649f8bb925d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:40 +0000
Subject: [PATCH 007/105] fix: keep the tool tip distance Jacobian finite

Jacobian was NaN when a residual component was exactly zero
---
 src/utAlgorithm/ToolTip/Optimization.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/utAlgorithm/ToolTip/Optimization.h b/src/utAlgorithm/ToolTip/Optimization.h
index 76c2609..b19caf0 100644
--- a/src/utAlgorithm/ToolTip/Optimization.h
+++ b/src/utAlgorithm/ToolTip/Optimization.h
@@ -179,16 +179,14 @@ public:
 			const VType t32 = t18*t18;
 			const VType t40 = t23*t23;
 			const VType t41 = t31+t32+t40;
-			const VType t42 = 1.0/sqrt(t41);
-			const VType t43 = (t14/fabs(t14));
-			const VType t44 = (t30/fabs(t30));
-			const VType t45 = (t39/fabs(t39));
-			J( i, 0 ) = static_cast< typename MT::value_type >( t17*t42*t43 );
-			J( i, 1 ) = static_cast< typename MT::value_type >( t18*t42*t44 );
-			J( i, 2 ) = static_cast< typename MT::value_type >( t23*t42*t45 );
-			J( i, 3 ) = static_cast< typename MT::value_type >( t42*(t6*t17*t43*2-t18*t26*t44*2+t23*t35*t45*2)*(1.0/2.0) );
-			J( i, 4 ) = static_cast< typename MT::value_type >( t42*(t9*t17*t43*2+t18*t24*t44*2-t23*t37*t45*2)*(1.0/2.0) );
-			J( i, 5 ) = static_cast< typename MT::value_type >( t42*(t13*t17*t43*-2+t18*t28*t44*2+t23*t33*t45*2)*(1.0/2.0) );
+			// the distance is not differentiable at zero: use the zero sub-gradient there
+			const VType t42 = ( t41 > 0 ) ? 1.0/sqrt(t41) : 0;
+			J( i, 0 ) = static_cast< typename MT::value_type >( t14*t42 );
+			J( i, 1 ) = static_cast< typename MT::value_type >( t30*t42 );
+			J( i, 2 ) = static_cast< typename MT::value_type >( t39*t42 );
+			J( i, 3 ) = static_cast< typename MT::value_type >( t42*(t6*t14-t26*t30+t35*t39) );
+			J( i, 4 ) = static_cast< typename MT::value_type >( t42*(t9*t14+t24*t30-t37*t39) );
+			J( i, 5 ) = static_cast< typename MT::value_type >( t42*(-t13*t14+t28*t30+t33*t39) );
 		}
 		// std::cout << "input  :\n" << input << "\n";
 		// std::cout << "J      :\n" << J.size1() << " x " << J.size2() << std::endl;
-- 
2.43.0


From e1da4bed830fc167bace267d028552d99a25fa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:40 +0000
Subject: [PATCH 008/105] fix: derivative of ax-xb with respect to b

RotHecCombine returned minus the derivative with respect to a
---
 src/utAlgorithm/Function/RotHecFunction.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/Function/RotHecFunction.h b/src/utAlgorithm/Function/RotHecFunction.h
index 8f7d6e7..49d5208 100644
--- a/src/utAlgorithm/Function/RotHecFunction.h
+++ b/src/utAlgorithm/Function/RotHecFunction.h
@@ -128,7 +128,25 @@ public:
 		jacobian1( 3, 2 ) = -m_x.z();
 		jacobian1( 3, 3 ) =  m_x.w();
 		
-		jacobian2 = -jacobian1;
+		jacobian2( 0, 0 ) = -m_x.w();
+		jacobian2( 0, 1 ) =  m_x.z();
+		jacobian2( 0, 2 ) = -m_x.y();
+		jacobian2( 0, 3 ) = -m_x.x();
+
+		jacobian2( 1, 0 ) = -m_x.z();
+		jacobian2( 1, 1 ) = -m_x.w();
+		jacobian2( 1, 2 ) =  m_x.x();
+		jacobian2( 1, 3 ) = -m_x.y();
+
+		jacobian2( 2, 0 ) =  m_x.y();
+		jacobian2( 2, 1 ) = -m_x.x();
+		jacobian2( 2, 2 ) = -m_x.w();
+		jacobian2( 2, 3 ) = -m_x.z();
+
+		jacobian2( 3, 0 ) =  m_x.x();
+		jacobian2( 3, 1 ) =  m_x.y();
+		jacobian2( 3, 2 ) =  m_x.z();
+		jacobian2( 3, 3 ) = -m_x.w();
 	}
 	
 protected:
-- 
2.43.0


From 3875a783bbbb2c2340446f02e1573051ff03a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:40 +0000
Subject: [PATCH 009/105] fix: rotation velocity integration is a rotation for
 finite angles

threshold 1e12 made the small-angle branch always active; derivative of w lacked a factor dt
---
 .../Optimization/Function/RotationVelocityIntegration.h       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Optimization/Function/RotationVelocityIntegration.h b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
index ea504aa..b1d19c8 100644
--- a/src/utMath/Optimization/Function/RotationVelocityIntegration.h
+++ b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
@@ -72,7 +72,7 @@ struct RotationVelocityIntegration
 		typedef typename VT1::value_type T;
 		T fNorm = boost::numeric::ublas::norm_2( q );
 		T s;
-		if ( fabs( fNorm * m_dt ) > 1e12 )
+		if ( fabs( fNorm * m_dt ) > 1e-12 )
 			s = sin( fNorm * m_dt * T( 0.5 ) ) / fNorm;
 		else
 			s = m_dt * T( 0.5 );
@@ -102,7 +102,7 @@ struct RotationVelocityIntegration
 	{
 		typedef typename MT1::value_type T;
 		boost::numeric::ublas::subrange( jac, 0, 3, 0, 3 ) = T( m_dt * 0.5 ) * boost::numeric::ublas::identity_matrix< T >( 3 );
-		boost::numeric::ublas::row( jac, 3 ) = T( m_dt * -0.25 ) * v;
+		boost::numeric::ublas::row( jac, 3 ) = T( m_dt * m_dt * -0.25 ) * v;
 	}
 
 	double m_dt;
-- 
2.43.0


From bf365d780d7628d6f373db16ecf465729364e636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:40 +0000
Subject: [PATCH 010/105] fix: time step power in the quaternion time update
 Jacobian

derivative with respect to the angular velocity was scaled by dt^2 instead of dt
---
 src/utTracking/Function/QuaternionTimeUpdate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utTracking/Function/QuaternionTimeUpdate.h b/src/utTracking/Function/QuaternionTimeUpdate.h
index ddf6a1e..3ba69de 100644
--- a/src/utTracking/Function/QuaternionTimeUpdate.h
+++ b/src/utTracking/Function/QuaternionTimeUpdate.h
@@ -75,8 +75,6 @@ public:
 		{
 			Math::RotationVelocity v( ublas::subrange( input, 4 + 3 * i, 4 + 3 * ( i + 1 ) ) );
 			r = r * v.integrate( t );
-			t *= m_deltaTime;
-			
 			jacobian( 0, 4 + i * 3 + 0 ) =  t * q.w() / 2;
 			jacobian( 0, 4 + i * 3 + 1 ) = -t * q.z() / 2;
 			jacobian( 0, 4 + i * 3 + 2 ) =  t * q.y() / 2;
@@ -92,6 +90,8 @@ public:
 			jacobian( 3, 4 + i * 3 + 0 ) = -t * q.x() / 2;
 			jacobian( 3, 4 + i * 3 + 1 ) = -t * q.y() / 2;
 			jacobian( 3, 4 + i * 3 + 2 ) = -t * q.z() / 2;
+
+			t *= m_deltaTime;
 		}
 		
 		r.toVector( result );
-- 
2.43.0


From 1a3a83f24b62d9c5165e85062abbb0a3a70305bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:37 +0000
Subject: [PATCH 011/105] fix: message-pack form of non-square matrices,
 dynamic vectors and measurements

elements of non-square matrices were read from wrong positions, vectors converted to message objects kept one element only, dynamic vectors were written out of bounds, as<Measurement> did not compile, intrinsics with an invalid coefficient count or type were accepted
---
 src/utSerialization/MsgpackSerializer.h | 32 ++++++++++++++++---------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index bb0231e..43529ee 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -132,12 +132,12 @@ template<typename T>
 struct as<Ubitrack::Measurement::Measurement<T>, typename std::enable_if<msgpack::has_as<T>::value>::type> {
   Ubitrack::Measurement::Measurement<T> operator()(msgpack::object const& o) const
   {
-      if (o.is_nil()) return nullptr;
+      if (o.is_nil()) return Ubitrack::Measurement::Measurement<T>();
       if (o.type!=msgpack::type::ARRAY) throw msgpack::type_error();
       if (o.via.array.size!=2) throw msgpack::type_error();
       return Ubitrack::Measurement::Measurement<T>(
-              o.via.array.ptr[0].as<unsigned long long>(),
-              boost::shared_ptr<T>(o.via.array.ptr[0].as<T>())
+              o.via.array.ptr[0].template as<unsigned long long>(),
+              o.via.array.ptr[1].template as<T>()
       );
   }
 };
@@ -270,6 +270,8 @@ struct convert<Ubitrack::Math::Vector<T, N> > {
       std::size_t num_elements = o.via.array.size;
       if (N>0) {
           if (num_elements!=N) throw msgpack::type_error();
+      } else {
+          v.resize(num_elements);
       }
       for (std::size_t i = 0; i<num_elements; ++i) {
 		  msgpack::adaptor::convert<T>()(o.via.array.ptr[i], v(i));
@@ -309,7 +311,7 @@ struct object_with_zone<Ubitrack::Math::Vector<T, N> > {
       o.via.array.ptr = static_cast<msgpack::object*>(
               o.zone.allocate_align(sizeof(msgpack::object)*o.via.array.size));
       for (std::size_t i = 0; i<num_elements; ++i) {
-          o.via.array.ptr[0] = msgpack::object(v(i), o.zone);
+          o.via.array.ptr[i] = msgpack::object(v(i), o.zone);
       }
   }
 };
@@ -334,7 +336,7 @@ struct as<Ubitrack::Math::Matrix<T, M, N>, typename std::enable_if<msgpack::has_
       Ubitrack::Math::Matrix<T, M, N> result(M, N);
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               result(i,j) = o.via.array.ptr[idx].as<T>();
           }
       }
@@ -357,7 +359,7 @@ struct convert<Ubitrack::Math::Matrix<T, M, N> > {
       }
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
 			  msgpack::adaptor::convert<T>()(o.via.array.ptr[idx], v(i, j));
               //v(i,j) = o.via.array.ptr[idx].as<T>();
           }
@@ -379,7 +381,7 @@ struct pack<Ubitrack::Math::Matrix<T, M, N> > {
       o.pack_array((uint32_t)num_elements);
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               o.pack(v(i,j));
           }
       }
@@ -402,7 +404,7 @@ struct object_with_zone<Ubitrack::Math::Matrix<T, M, N> > {
               o.zone.allocate_align(sizeof(msgpack::object)*o.via.array.size));
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               o.via.array.ptr[idx] = msgpack::object(v(i,j), o.zone);
           }
       }
@@ -712,10 +714,14 @@ struct as<Ubitrack::Math::CameraIntrinsics<T> > {
       if (o.type!=msgpack::type::ARRAY) throw msgpack::type_error();
       if (o.via.array.size != 6) throw msgpack::type_error();
       Ubitrack::Math::CameraIntrinsics<T> result;
-      result.calib_type = static_cast<typename Ubitrack::Math::CameraIntrinsics<T>::CalibType>(o.via.array.ptr[0].as<int>());
+      const int calib_type = o.via.array.ptr[0].as<int>();
+      const std::size_t radial_size = o.via.array.ptr[3].as<std::size_t>();
+      if (calib_type < 0 || calib_type > Ubitrack::Math::CameraIntrinsics<T>::OPENCV_4_0_FISHEYE) throw msgpack::type_error();
+      if (radial_size > result.radial_params.size()) throw msgpack::type_error();
+      result.calib_type = static_cast<typename Ubitrack::Math::CameraIntrinsics<T>::CalibType>(calib_type);
       result.dimension = o.via.array.ptr[1].as<Ubitrack::Math::Vector< std::size_t, 2 > >();
       result.matrix = o.via.array.ptr[2].as<Ubitrack::Math::Matrix< T, 3, 3 > >();
-      result.radial_size = o.via.array.ptr[3].as<std::size_t>();
+      result.radial_size = radial_size;
       result.radial_params = o.via.array.ptr[4].as<Ubitrack::Math::Vector< T, 6 > >();
       result.tangential_params = o.via.array.ptr[5].as<Ubitrack::Math::Vector< T, 2 > >();
       return result;
@@ -731,10 +737,14 @@ struct convert<Ubitrack::Math::CameraIntrinsics<T> > {
       if (o.via.array.size != 6) throw msgpack::type_error();
 	  int calib_type;
 	  msgpack::adaptor::convert<int>()(o.via.array.ptr[0], calib_type);
+	  std::size_t radial_size;
+	  msgpack::adaptor::convert<std::size_t >()(o.via.array.ptr[3], radial_size);
+      if (calib_type < 0 || calib_type > Ubitrack::Math::CameraIntrinsics<T>::OPENCV_4_0_FISHEYE) throw msgpack::type_error();
+      if (radial_size > v.radial_params.size()) throw msgpack::type_error();
       v.calib_type = static_cast<typename Ubitrack::Math::CameraIntrinsics<T>::CalibType>(calib_type);
 	  msgpack::adaptor::convert<Ubitrack::Math::Vector<std::size_t, 2> >()(o.via.array.ptr[1], v.dimension);
 	  msgpack::adaptor::convert<Ubitrack::Math::Matrix< T, 3, 3 > >()(o.via.array.ptr[2], v.matrix);
-	  msgpack::adaptor::convert<std::size_t >()(o.via.array.ptr[3], v.radial_size);
+	  v.radial_size = radial_size;
 	  msgpack::adaptor::convert<Ubitrack::Math::Vector< T, 6 > >()(o.via.array.ptr[4], v.radial_params);
 	  msgpack::adaptor::convert<Ubitrack::Math::Vector< T, 2 > >()(o.via.array.ptr[5], v.tangential_params);
       return o;
-- 
2.43.0


From 67b027d3984f8900bbc53e72337196db40e02256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:37 +0000
Subject: [PATCH 012/105] fix: serialised camera intrinsics keep all
 coefficients

the third radial coefficient was dropped, fisheye intrinsics had uninitialised coefficients, reading kept coefficients of the previous value and wrote out of bounds for invalid counts
---
 src/utMath/CameraIntrinsics.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index da35e1b..5c38145 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -43,6 +43,7 @@
 //Ubitrack
 #include <utMath/Vector.h>
 #include <utMath/Matrix.h>
+#include <utUtil/Exception.h>
 
 namespace Ubitrack { namespace Math {
 
@@ -155,7 +156,7 @@ public:
 		: calib_type( OPENCV_3_2 )
 		, dimension(Math::Vector< std::size_t, 2 >(width, height))
 		, matrix( intrinsicMatrix )
-		, radial_size( 2 )
+		, radial_size( 3 )
 		, radial_params( radial_type::zeros() )
 		, tangential_params( _tangential )
 		{
@@ -181,6 +182,7 @@ public:
 		, dimension(Math::Vector< std::size_t, 2 >(width, height))
 		, matrix( intrinsicMatrix )
 		, radial_size( 4 )
+		, radial_params( radial_type::zeros() )
 		, tangential_params( tangential_type::zeros() )
 		{
 			radial_params( 0 ) = _radial( 0 );
@@ -230,6 +232,9 @@ public:
 			case 6 : // wide-angle parameters
 				calib_type = OPENCV_6_2;
 				break;
+			default : // no known set of parameters
+				calib_type = UNKNOWN;
+				break;
 		}
 	}
 	
@@ -285,7 +290,18 @@ protected:
 		
 		ar & dimension( 0 );
 		ar & dimension( 1 );		
-		ar & radial_size;
+		
+		std::size_t rad_dim = radial_size;
+		ar & rad_dim;
+		
+		if( rad_dim > radial_params.size() )
+			UBITRACK_THROW( "Invalid number of radial distortion parameters" );
+		
+		radial_size = rad_dim;
+		
+		// do not keep coefficients of a previous calibration
+		if( Archive::is_loading::value )
+			radial_params = radial_type::zeros();
 		
 		for( std::size_t i = 0; i < radial_size; ++i )
 			ar & radial_params[ i ];
@@ -296,7 +312,8 @@ protected:
 		ar & tangential_params[ 0 ];
 		ar & tangential_params[ 1 ];
 		
-		reset();
+		if( Archive::is_loading::value )
+			reset();
 	}
 };
 
-- 
2.43.0


From de80d8ac908f99fc0e50d69c832145da455f07d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:55 +0000
Subject: [PATCH 013/105] fix: reading into and printing measurements without a
 value

reading an archive into, writing or printing a measurement without payload dereferenced a null pointer
---
 src/utMeasurement/Measurement.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/utMeasurement/Measurement.h b/src/utMeasurement/Measurement.h
index 4a0e7fa..f586fb4 100644
--- a/src/utMeasurement/Measurement.h
+++ b/src/utMeasurement/Measurement.h
@@ -43,6 +43,7 @@
 #include <utMath/Scalar.h>
 #include <utMath/RotationVelocity.h>
 #include <utMath/CameraIntrinsics.h>
+#include <utUtil/Exception.h>
 
 // std
 #include <vector>
@@ -104,7 +105,7 @@ typedef Measurement< std::vector < Math::ErrorVector< double, 3 > > > ErrorPosit
 template< typename Type > 
 std::ostream& operator<< ( std::ostream& s, const Measurement< Type >& m )
 {
-    if ( m.invalid() ) {
+    if ( m.invalid() || m.get() == 0 ) {
         return s << "INVALID";
     } else {
 	    return s << *m << " " << timestampToShortString( m.m_timestamp );
@@ -248,6 +249,13 @@ class Measurement
 		void serialize( Archive& ar, const unsigned int version )
 		{
 			ar & m_timestamp;
+			if ( this->get() == 0 )
+			{
+				// there is no representation of an empty measurement, but one can be read into
+				if ( !Archive::is_loading::value )
+					UBITRACK_THROW( "Cannot serialize a measurement without a value" );
+				this->reset( new Type() );
+			}
 			ar & ( *(this->get()) );
 		}
 };
-- 
2.43.0


From 5ef81d8d637514ffc6a4e7c3bfabf6e180ead7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:17 +0000
Subject: [PATCH 014/105] fix: calibration file faults are reported and keep
 the previous value

archive constructor errors escaped as foreign exception types, failed reads clobbered the value of the caller and write errors (full device) were silent
---
 src/utUtil/CalibFile.h | 59 ++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/utUtil/CalibFile.h b/src/utUtil/CalibFile.h
index 5349785..ad421d1 100644
--- a/src/utUtil/CalibFile.h
+++ b/src/utUtil/CalibFile.h
@@ -66,8 +66,10 @@ void readCalibFile( const std::string& sFile, T& result )
     try {
 	    // create iarchive
 	    boost::archive::text_iarchive archive( stream );
-    	// read data
-	    archive >> result;
+    	// read data, keep the previous value if this fails
+	    T value = T();
+	    archive >> value;
+	    result = value;
     } catch (std::exception& ) {
         UBITRACK_THROW( "Could not read ubitrack file" );
     }
@@ -89,8 +91,10 @@ void readBinaryCalibFile(const std::string& sFile, T& result)
 	try {
 		// create iarchive
 		boost::archive::binary_iarchive archive(stream);
-		// read data
-		archive >> result;
+		// read data, keep the previous value if this fails
+		T value = T();
+		archive >> value;
+		result = value;
 	}
 	catch (std::exception& e) {
 		std::string tmp = e.what();
@@ -108,22 +112,23 @@ template< typename T >
 void readCalibFile( const std::string& sFile, Measurement::Measurement< T >& result )
 {
 	// initialize measurement
-	result = Measurement::Measurement< T >( 0, boost::shared_ptr< T >( new T() ) );
+	Measurement::Measurement< T > value( 0, boost::shared_ptr< T >( new T() ) );
 
 	// create ifstream
 	std::ifstream stream( sFile.c_str() );
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for reading" );
 
-	// create iarchive
-	boost::archive::text_iarchive archive( stream );
-
     try {
+	    // create iarchive
+	    boost::archive::text_iarchive archive( stream );
 	    // read data
-	    archive >> result;
+	    archive >> value;
     } catch (std::exception& ) {
         UBITRACK_THROW( "Wrong file format" );
     }
+
+	result = value;
 }
 
 /** 
@@ -146,10 +151,9 @@ void readCalibFileDropMeasurement( const std::string& sFile, T& result )
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for reading" );
 
-	// create iarchive
-	boost::archive::text_iarchive archive( stream );
-
 	try {
+	    // create iarchive
+	    boost::archive::text_iarchive archive( stream );
 	    // read data
 	    archive >> interResult;
     } catch (std::exception& ) {
@@ -173,11 +177,18 @@ void writeCalibFile( const std::string& sFile, const T& data )
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for writing" );
 
-	// create iarchive
-	boost::archive::text_oarchive archive( stream );
+	try {
+		// create oarchive
+		boost::archive::text_oarchive archive( stream );
+		// write data
+		archive << data;
+		stream.flush();
+	} catch ( std::exception& ) {
+		UBITRACK_THROW( "Could not write file " + sFile );
+	}
 
-	// read data
-	archive << data;
+	if ( !stream.good() )
+		UBITRACK_THROW( "Could not write file " + sFile );
 }
 
 /**
@@ -193,11 +204,19 @@ void writeBinaryCalibFile(const std::string& sFile, const T& data)
 	if (!stream.good())
 		UBITRACK_THROW("Could not open file " + sFile + " for writing");
 
-	// create iarchive
-	boost::archive::binary_oarchive archive(stream);
+	try {
+		// create oarchive
+		boost::archive::binary_oarchive archive(stream);
+		// write data
+		archive << data;
+		stream.flush();
+	}
+	catch (std::exception&) {
+		UBITRACK_THROW("Could not write file " + sFile);
+	}
 
-	// read data
-	archive << data;
+	if (!stream.good())
+		UBITRACK_THROW("Could not write file " + sFile);
 }
 } } // namespace Ubitrack::Util
 
-- 
2.43.0


From ead3ca29a7400a35e77dba8f5c12e017c0a4ba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:03 +0000
Subject: [PATCH 015/105] fix: least-squares clock synchronisation with large
 or backward clock values

TimestampSyncLS lost all precision (infinite results) for large native clock values and converted negative differences to unsigned
---
 src/utMeasurement/TimestampSyncLS.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utMeasurement/TimestampSyncLS.h b/src/utMeasurement/TimestampSyncLS.h
index 61ec846..d1f3317 100644
--- a/src/utMeasurement/TimestampSyncLS.h
+++ b/src/utMeasurement/TimestampSyncLS.h
@@ -80,9 +80,15 @@ public:
 	Timestamp convertNativeToLocal( double native, Timestamp local )
 	{
 		if ( m_events == 0 )
+		{
 			m_firstLocal = local;
+			m_firstNative = native;
+		}
+
+		// only differences to the first event are used: keeps the precision for large clock values
+		native -= m_firstNative;
 
-		double fLocal = static_cast< double >( local - m_firstLocal );
+		double fLocal = static_cast< double >( static_cast< long long >( local - m_firstLocal ) );
 		double fExtrapolated, deviationSquare, thresholdSquare;
 		double fGain, var;
 		
@@ -135,7 +141,7 @@ public:
 		m_events++;
 
 		// return the input value for the first 10 times
-		return m_firstLocal + static_cast< Timestamp >( fExtrapolated );
+		return m_firstLocal + static_cast< long long >( fExtrapolated );
 	}
 
 	unsigned getEventCount() const
@@ -145,6 +151,7 @@ protected:
 
 	unsigned m_events;
 	Timestamp m_firstLocal;
+	double m_firstNative;
 	
 	// variables for recursive exponentially-weighted least squares
 	double m_avgNative;
-- 
2.43.0


From da50fc1e2224f5d5a4ee06e0a95700644f835bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:03 +0000
Subject: [PATCH 016/105] fix: sleep with a nanosecond part that overflows the
 second

Util::sleep returned at once when milliseconds and nanoseconds together exceeded the nanosecond field
---
 src/utUtil/OS.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utUtil/OS.cpp b/src/utUtil/OS.cpp
index 95e3627..c78cabd 100644
--- a/src/utUtil/OS.cpp
+++ b/src/utUtil/OS.cpp
@@ -67,8 +67,13 @@ double getHighPerformanceFrequency()
 void sleep( unsigned ms, unsigned ns )
 {	
 	timespec t;
-	t.tv_sec = ms / 1000;
-	t.tv_nsec = ( ms % 1000 ) * 1000000 + ns;
+	t.tv_sec = ms / 1000 + ns / 1000000000;
+	t.tv_nsec = ( ms % 1000 ) * 1000000 + ns % 1000000000;
+	if ( t.tv_nsec >= 1000000000 )
+	{
+		t.tv_sec++;
+		t.tv_nsec -= 1000000000;
+	}
 	nanosleep( &t, NULL );
 }
 
-- 
2.43.0


From 192ccedda56569f3b675eceb96942c4ebdc45cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:25 +0000
Subject: [PATCH 017/105] fix: pseudo-inverse of rank deficient matrices

pseudoInvert_matrix inverted singular values that are only rounding noise, giving entries around 1e16 for rank deficient matrices
---
 src/utMath/MatrixOperations.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/utMath/MatrixOperations.h b/src/utMath/MatrixOperations.h
index 9a96b2b..3621dca 100644
--- a/src/utMath/MatrixOperations.h
+++ b/src/utMath/MatrixOperations.h
@@ -36,6 +36,8 @@
 #include "Vector.h"
 #include "Matrix.h"
 #include <boost/numeric/ublas/matrix_proxy.hpp>
+#include <algorithm>
+#include <limits>
 
 
 #include <utUtil/StaticAssert.h>
@@ -121,12 +123,14 @@ Math::Matrix< T, N, M > pseudoInvert_matrix( const Math::Matrix< T, M, N >& mat
 
 	boost::numeric::bindings::lapack::gesvd( 'S', 'S', a, s, U, Vt );
 
+	// singular values at the level of the rounding errors are zeros
+	const T threshold = nSingularValues ? s( 0 ) * std::max( n, m ) * std::numeric_limits< T >::epsilon() : 0;
 	for( size_type i=0; i<nSingularValues; i++ )
 	{
-		if( s( i ) != 0 )
-		{
+		if( s( i ) > threshold )
 			s( i ) = static_cast< T >( 1 ) / s( i );
-		}
+		else
+			s( i ) = 0;
 	}
 
 	if( n > m )
-- 
2.43.0


From ccba295fa88ab1bb5a6d7de3d688a7165ec359b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:22 +0000
Subject: [PATCH 018/105] fix: reject Levenberg-Marquardt steps with undefined
 residual

a step out of the domain of the problem (NaN residual) was accepted, making parameters and every later residual NaN
---
 src/utMath/Optimization/LevenbergMarquardt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/LevenbergMarquardt.h b/src/utMath/Optimization/LevenbergMarquardt.h
index 0acd021..1a72a96 100644
--- a/src/utMath/Optimization/LevenbergMarquardt.h
+++ b/src/utMath/Optimization/LevenbergMarquardt.h
@@ -208,7 +208,7 @@ typename X::value_type weightedLevenbergMarquardt( P& problem, X& params, const
 		bTerminate = terminationCriteria( iteration, fErr, fErrPrev );
 
 		// update parameters
-		if ( fErr >= fErrPrev )
+		if ( !( fErr < fErrPrev ) ) // also rejects steps leaving the domain of the problem (NaN)
 			fLambda *= T( fStepFactor );
 		else
 		{
-- 
2.43.0


From 2aa48c57a31df76a5c4d942a43ac02d65544c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:22 +0000
Subject: [PATCH 019/105] fix: end optimisation with relative criterion at zero
 residual

OptTerminate without iteration limit never ended once the residual was exactly zero (0 < p*0)
---
 src/utMath/Optimization/Optimization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/Optimization.h b/src/utMath/Optimization/Optimization.h
index 8258a03..780b845 100644
--- a/src/utMath/Optimization/Optimization.h
+++ b/src/utMath/Optimization/Optimization.h
@@ -72,7 +72,7 @@ public:
 	bool operator()( const std::size_t iterations, const double resPrev, const double resNow ) const
 	{ 
 		return ( m_maxIterations > 0 && iterations >= m_maxIterations ) ||
-			( m_precision != 0.0 && fabs( resPrev - resNow ) < m_precision * resNow );
+			( m_precision != 0.0 && fabs( resPrev - resNow ) <= m_precision * resNow );
 	}
 
 protected:
-- 
2.43.0


From b9f997e3ab99f1fd37742966142082f4e58ed6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:22 +0000
Subject: [PATCH 020/105] fix: make gaussNewton compile by using ublas base
 types

gaussNewton could not be instantiated: blas bindings do not know Math::Vector/Math::Matrix
---
 src/utMath/Optimization/GaussNewton.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utMath/Optimization/GaussNewton.h b/src/utMath/Optimization/GaussNewton.h
index 47c0720..6adf81a 100644
--- a/src/utMath/Optimization/GaussNewton.h
+++ b/src/utMath/Optimization/GaussNewton.h
@@ -72,14 +72,15 @@ void gaussNewton( P& problem, VT1& params, const VT2& measurement, unsigned nIte
 	namespace blas = boost::numeric::bindings::blas;
 	namespace ublas = boost::numeric::ublas;
 	typedef typename VT1::value_type T;
-	typedef typename Math::Matrix< T, 0, 0 > MatType;
+	typedef typename Math::Matrix< T, 0, 0 >::base_type MatType;
+	typedef typename Math::Vector< T >::base_type VecType;
 
 	// create some matrices and vectors
 	MatType matJacobian( measurement.size(), params.size() );
 	MatType matJacobiSquare( params.size(), params.size() );
-	Math::Vector< T > measurementDiff( measurement.size() );
-	Math::Vector< T > paramDiff( params.size() );
-	Math::Vector< T > estimatedMeasurement( measurement.size() );
+	VecType measurementDiff( measurement.size() );
+	VecType paramDiff( params.size() );
+	VecType estimatedMeasurement( measurement.size() );
 
 	OPT_LOG_DEBUG( "Gauss-Newton entry params: " << params );
 
-- 
2.43.0


From 908c77c59d1c373870948ca4a752095d385d89f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:35 +0000
Subject: [PATCH 021/105] fix: keep sample and length contract of ransac

ransac read past the end for fewer values than the sample size or lists of different length, drew the same observation several times (vector form) and reported success although the final estimate failed
---
 src/utMath/Optimization/Ransac.h | 40 +++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/utMath/Optimization/Ransac.h b/src/utMath/Optimization/Ransac.h
index 7c11954..db204f2 100644
--- a/src/utMath/Optimization/Ransac.h
+++ b/src/utMath/Optimization/Ransac.h
@@ -37,6 +37,7 @@
 #include <utCore.h>
 #include "Optimization.h"
 
+#include <cmath>
 #include <vector>
 #include <stdlib.h>
 #include <iterator> // std::iterator_traits
@@ -136,7 +137,11 @@ std::size_t ransac( const InputIterator iBegin, const InputIterator iEnd
 	
 	// estimate number of parameter list
 	const std::size_t nValues = std::distance( iBegin, iEnd );
-	assert( params.nMinInlier <= nValues );
+	if ( nValues < params.setSize || nValues < params.nMinInlier )
+	{
+		OPT_LOG_DEBUG( "RANSAC: too few values" );
+		return 0;
+	}
 	
 	OPT_LOG_DEBUG( "RANSAC with " << nValues << " values , " << params.nMinInlier << " inlier required" );
 	
@@ -231,7 +236,8 @@ std::size_t ransac( const InputIterator iBegin, const InputIterator iEnd
 		for ( ; it < itEnd; ++it )
 			list.push_back( *(*it) );
 
-		typename RansacFunctor::Estimator()( result, list.begin(), list.end() );
+		if( ! typename RansacFunctor::Estimator()( result, list.begin(), list.end() ) )
+			return 0;
 		OPT_LOG_DEBUG( "Estimated " << nBestInliers << " inlier after " << iRun + 1 << " iterations."  );
 		return nBestInliers;
 	}
@@ -272,7 +278,11 @@ std::size_t ransac( const InputIterator1 iBegin1, const InputIterator1 iEnd1
 	
 	// estimate number of parameter list
 	const std::size_t nValues = std::distance( iBegin1, iEnd1 );
-	assert( params.nMinInlier <= nValues );
+	if ( nValues != static_cast< std::size_t >( std::distance( iBegin2, iEnd2 ) ) || nValues < params.setSize || nValues < params.nMinInlier )
+	{
+		OPT_LOG_DEBUG( "RANSAC: too few values or lists of different length" );
+		return 0;
+	}
 	
 	OPT_LOG_DEBUG( "RANSAC with " << nValues << " values , " << params.nMinInlier << " inlier required" );
 	
@@ -385,7 +395,8 @@ std::size_t ransac( const InputIterator1 iBegin1, const InputIterator1 iEnd1
 		}
 			
 
-		typename RansacFunctor::Estimator()( result, list1.begin(), list1.end(), list2.begin(), list2.end() );
+		if( ! typename RansacFunctor::Estimator()( result, list1.begin(), list1.end(), list2.begin(), list2.end() ) )
+			return 0;
 		OPT_LOG_DEBUG( "Estimated " << nBestInliers << " inlier after " << iRun + 1 << " iterations."  );
 		return nBestInliers;
 	}
@@ -406,6 +417,17 @@ std::size_t ransac( Result& result, const std::vector< Param1 >& paramList1, con
 {
 	OPT_LOG_DEBUG( "RANSAC with " << paramList1.size() << " parameters, " << nMinInlier << " inlier required" );
 	
+	if ( paramList1.size() != paramList2.size() || paramList1.size() < nSetSize || paramList1.size() < nMinInlier )
+	{
+		OPT_LOG_DEBUG( "RANSAC: too few parameters or lists of different length" );
+		return 0;
+	}
+
+	// includes every index once, needed to select each parameter at most once
+	std::vector< std::size_t > indices;
+	indices.reserve( paramList1.size() );
+	std::generate_n( std::back_inserter( indices ), paramList1.size(), IndexGenerator() );
+
 	// set of inlier
 	std::vector< bool > bInliers( paramList1.size() );
 
@@ -427,12 +449,12 @@ std::size_t ransac( Result& result, const std::vector< Param1 >& paramList1, con
 			list1.reserve( nSetSize );
 			list2.reserve( nSetSize );
 			
-			for ( std::size_t i = nSetSize; i; i-- )
+			for ( std::size_t i = 0; i < nSetSize; i++ )
 			{
-				std::size_t iSelected = rand() % paramList1.size();
-				list1.push_back( paramList1[ iSelected ] );
-				list2.push_back( paramList2[ iSelected ] );
-				// TODO: check for double selections...
+				// move a random index of those not selected yet to position i
+				std::swap( indices[ i ], indices[ i + rand() % ( indices.size() - i ) ] );
+				list1.push_back( paramList1[ indices[ i ] ] );
+				list2.push_back( paramList2[ indices[ i ] ] );
 			}
 			
 			// compute hypothesis
-- 
2.43.0


From 4029411fada134714b648c610f58b586f42b2b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:36 +0000
Subject: [PATCH 022/105] fix: leave tool tip untouched when robust estimation
 fails

a failed robust tool-tip estimation overwrote both results with uninitialised memory
---
 src/utAlgorithm/ToolTip/Ransac.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/ToolTip/Ransac.h b/src/utAlgorithm/ToolTip/Ransac.h
index f174384..a8d21d1 100644
--- a/src/utAlgorithm/ToolTip/Ransac.h
+++ b/src/utAlgorithm/ToolTip/Ransac.h
@@ -104,11 +104,13 @@ bool estimatePosition3D_6D( Math::Vector< T, 3 >& pw
 {
 	Math::Vector< T, 6 > resultVector;
 	const std::size_t inlier = Math::Optimization::ransac( iBegin, iEnd, resultVector, ToolTip::Ransac< T >(), params  );
+	if ( inlier == 0 )
+		return false;
 	
 	pw = Math::Vector< T, 3 > ( resultVector[ 0 ], resultVector[ 1 ], resultVector[ 2 ] );
 	pm = Math::Vector< T, 3 > ( resultVector[ 3 ], resultVector[ 4 ], resultVector[ 5 ] );
 	
-	return ( inlier > 0 );
+	return true;
 }
 
 UBITRACK_EXPORT bool estimatePosition3D_6D( Math::Vector3f& pw
-- 
2.43.0


From 491d3b76e6c50cc1fa976aa43197b2b2d2bc9c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:40 +0000
Subject: [PATCH 023/105] fix: report unusable input of absolute orientation

fewer than three points or lists of different length read past the end or gave a made-up pose instead of the documented failure/exception
---
 src/utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.cpp | 5 ++++-
 src/utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h  | 5 +++++
 src/utAlgorithm/PoseEstimation3D3D/Pose6D.h                | 4 ++--
 src/utAlgorithm/PoseEstimation3D3D/Rotation3D.h            | 4 ++--
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.cpp b/src/utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.cpp
index d936039..13f7c2c 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.cpp
+++ b/src/utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.cpp
@@ -37,6 +37,8 @@
 #include "Ransac.h"
 #include "Optimization.h"
 
+#include <utUtil/Exception.h>
+
 namespace Ubitrack { namespace Algorithm { namespace PoseEstimation3D3D {
 
 ///  @internal old function call
@@ -45,7 +47,8 @@ Math::Pose calculateAbsoluteOrientation ( const std::vector< Math::Vector3d >& l
 {
 	Math::Pose pose;
 	// attention flipped the input parameters for new order
-	estimatePose6D_3D3D ( right.begin(), right.end(), pose, left.begin(), left.end() );
+	if( !estimatePose6D_3D3D ( right.begin(), right.end(), pose, left.begin(), left.end() ) )
+		UBITRACK_THROW( "absolute orientation could not be determined" );
 	return Math::Pose( pose );
 }
 
diff --git a/src/utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h b/src/utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h
index 7057a4d..51e9ec9 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h
@@ -142,6 +142,11 @@ bool estimatePose6DCovariance( const InputIterator iBeginA, const InputIterator
 	
 	// const Math::Matrix< T, 3, 4 > mat( pose );
 
+	const std::size_t n = std::distance( iBeginA, iEndA );
+	const std::size_t n2 = std::distance( iBeginB, iEndB );
+	if( n < 3u || n != n2 )
+		return false;
+
 	// estimate residual error
 	const T err = estimatePose6DResidual< T >( iBeginA, iEndA, pose, iBeginB, iEndB );
 	
diff --git a/src/utAlgorithm/PoseEstimation3D3D/Pose6D.h b/src/utAlgorithm/PoseEstimation3D3D/Pose6D.h
index 4372653..a6d1daa 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/Pose6D.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/Pose6D.h
@@ -63,9 +63,9 @@ bool estimatePose6D_3D3D ( const InputIterator itBegin1, const InputIterator itE
 
 	{
 		const std::size_t n = std::distance( itBegin1, itEnd1 );
-		assert( n > 2u ); // <- 3D3D needs at least three pairwise distinct values
 		const std::size_t n2 = std::distance( itBegin2, itEnd2 );
-		assert( n == n2 ); // <- should contain equal amount of values
+		if( n < 3u || n != n2 ) // <- 3D3D needs at least three pairwise distinct values and an equal amount of values
+			return false;
 	}
 	
 	Math::Quaternion quat;
diff --git a/src/utAlgorithm/PoseEstimation3D3D/Rotation3D.h b/src/utAlgorithm/PoseEstimation3D3D/Rotation3D.h
index 1e991ae..16bf1b2 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/Rotation3D.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/Rotation3D.h
@@ -68,9 +68,9 @@ bool estimateRotation_3D3D ( const InputIterator iBeginLeft, const InputIterator
 	typedef typename vector_type::value_type value_type;
 
 	const std::size_t n = std::distance( iBeginLeft, iEndLeft );
-	assert( n > 2u );
 	const std::size_t n2 = std::distance( iBeginRight, iEndRight );
-	assert( n == n2 );
+	if( n < 3u || n != n2 )
+		return false;
 	
 	// calculate the matrix M of sums of outer-products
 	Math::Matrix< value_type, 3, 3 > M ( Math::Matrix< value_type, 3, 3 >::zeros() );
-- 
2.43.0


From a3036144ba95e8da1897b4114aa4a756234f34d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:40 +0000
Subject: [PATCH 024/105] fix: correct derivative of pose refinement from point
 correspondences

the Jacobian of PointCorrespodencesSinglePose was that of the unnormalised rotation although the value normalises the quaternion, so refinement stalled before the minimum; lists of different length wrote out of bounds
---
 src/utAlgorithm/PoseEstimation3D3D/Optimization.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
index a7878d2..53e51c6 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
@@ -181,6 +181,16 @@ public:
 			J( i*3+1, 0 ) = J( i*3+1, 2 ) = 0;
 			J( i*3+2, 0 ) = J( i*3+2, 1 ) = 0;
 			
+			// evaluate() normalizes the quaternion, its length has no influence on the result
+			for ( std::size_t k = i*3; k < i*3+3; ++k )
+			{
+				const VType radial = J( k, 3 )*qx + J( k, 4 )*qy + J( k, 5 )*qz + J( k, 6 )*qw;
+				J( k, 3 ) = ( J( k, 3 ) - radial*qx ) / n;
+				J( k, 4 ) = ( J( k, 4 ) - radial*qy ) / n;
+				J( k, 5 ) = ( J( k, 5 ) - radial*qz ) / n;
+				J( k, 6 ) = ( J( k, 6 ) - radial*qw ) / n;
+			}
+			
 			// const VType t2 = qy*qy;
 			// const VType t3 = qz*qz;
 			// const VType t4 = qw*qw;
@@ -258,7 +268,9 @@ bool estimatePose6D_3D3D( const InputIterator iBeginA, const InputIterator iEndA
 	
 	
 	const std::size_t n = std::distance( iBeginA, iEndA );
-	assert( n > 2 );
+	const std::size_t n2 = std::distance( iBeginB, iEndB );
+	if( n < 3u || n != n2 )
+		return false;
 	
 	// commented 1 step: take input as initial pose, no estimation here
 	// 1) estimate a first initial guess,
-- 
2.43.0


From 45f564e3d8d28b86c14a984f70d006e46da5507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:57 +0000
Subject: [PATCH 025/105] fix: report unusable targets and place planes off the
 origin in planar pose estimation

planar pose estimation placed targets lying in a plane z=c at the wrong distance, read out of bounds for lists of different length, and returned a made-up pose when the first three points are collinear
---
 .../PoseEstimation2D3D/PlanarPoseEstimation.cpp      | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
index de771dd..f00908e 100644
--- a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
+++ b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
@@ -150,6 +150,9 @@ template< typename T >
 T optimizePoseImpl( Pose& p, const std::vector< Vector< T, 2 > >& p2D, const std::vector< Vector< T, 3 > >& p3D, 
 	const Matrix< T, 3, 3 >& cam, const std::size_t nIterations  )
 {
+	if ( p2D.size() != p3D.size() )
+		UBITRACK_THROW( "2D3D pose optimization needs the same number of 2D and 3D points" );
+
 	// copy rot & trans to parameter vector
 	Vector< T, 7 > params;
 	p.toVector( params );
@@ -329,6 +332,9 @@ Math::ErrorPose computePose(
 	if ( n_points < 4 ) {
 		UBITRACK_THROW( "2D3D pose estimation configured to use at least 4 points" );
 	}
+	if ( n_points != p3d.size() ) {
+		UBITRACK_THROW( "2D3D pose estimation needs the same number of 2D and 3D points" );
+	}
 	
 	OPT_LOG_DEBUG( "Performing pose estimation using " << n_points << " points" );
 	OPT_LOG_TRACE( "2D points: " << p2d );
@@ -421,7 +427,9 @@ Math::ErrorPose computePose(
 			OPT_LOG_TRACE( "Homography: " << H );
 
 			// compute initial pose from homography
-			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK );
+			// (which describes the plane z = 0, while all points lie in the plane z = last_dim)
+			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK ) 
+				* Math::Pose( Math::Quaternion(), Math::Vector< double, 3 >( 0, 0, -last_dim ) );
 			
 			OPT_LOG_TRACE( "Pose from homography: " << pose )
 		}
@@ -450,6 +458,8 @@ Math::ErrorPose computePose(
 
 			vZ = Math::cross_product( vX, vZ );
 			f = ublas::norm_2( vZ );
+			if ( f < 1e-6 ) // the first point lies between the others
+				UBITRACK_THROW( "Pose estimation requires four coplanar points in general position but three of them are collinear" );
 			vZ /= f;
 
 			Math::Matrix< double, 3, 3 > P;
-- 
2.43.0


From fc5f7514c581268749550c4c17abc81029b6d279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:27 +0000
Subject: [PATCH 026/105] fix: report too few poses in Tsai-Lenz hand-eye
 calibration

performHandEyeCalibration returned the identity (and leaked memory) for fewer than three pose pairs
---
 src/utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp b/src/utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp
index 7864c28..2c62317 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp
+++ b/src/utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp
@@ -429,9 +429,8 @@ Math::Pose performHandEyeCalibrationImp ( const std::vector<Math::Matrix< T, 4,
 
 	if( n_eyes <= 2 )
 	{
-		Math::Vector< T, 3 >* v = new Math::Vector< T, 3 >( 0, 0, 0 );
-		Math::Quaternion* q = new Math::Quaternion();
-		return Math::Pose( *q, *v);
+		LOG4CPP_ERROR ( logger, "At least three pose pairs are needed" );
+		UBITRACK_THROW ( "At least three pose pairs are needed" );
 	}
 	
 	TransformCont< T > tc;
@@ -499,9 +498,8 @@ Math::Pose performHandEyeCalibration ( const std::vector< Math::Pose >& hand,  c
 
 	if( n_eyes <= 2 )
 	{
-		Math::Vector< double, 3 >* v = new Math::Vector< double, 3 >( 0, 0, 0 );
-		Math::Quaternion* q = new Math::Quaternion();
-		return Math::Pose( *q, *v);
+		LOG4CPP_ERROR ( logger, "At least three pose pairs are needed" );
+		UBITRACK_THROW ( "At least three pose pairs are needed" );
 	}
 
 	TransformCont< double > tc;
-- 
2.43.0


From 425f78f1a552fc29e37eb295a7f723236aab8cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:27 +0000
Subject: [PATCH 027/105] fix: align signs and solve robustly in dual
 quaternion hand-eye calibration

dual quaternion calibration failed or returned a wrong pose when the quaternions of corresponding motions had opposite signs or the quadratic degenerated, and read out of bounds for lists of different length or too few poses
---
 .../PoseEstimation6D6D/DualQuaternion.cpp     | 49 ++++++++++++-------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
index 67b41b1..97814af 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
+++ b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
@@ -47,18 +47,22 @@ namespace Ubitrack{ namespace Math {
 struct SolveQuadratic
 {
 	template< typename T >
-	Math::Vector< T, 2 > operator()( const Math::Vector< T, 3 >& quadratic ) const
+	Math::Matrix< T, 2, 2 > operator()( const Math::Vector< T, 3 >& quadratic ) const
 	{
-		// solve ax^2 + bx + c = 0 for x_{1,2}
+		// solve ax^2 + bxy + cy^2 = 0 for the two directions (x,y), one per row
 		// assume input vector with following order[ c b a ]
 		const T c = quadratic[ 0 ];
 		const T b = quadratic[ 1 ];
-		const T m2a = 2.*quadratic[ 2 ]; // <-- 2a is needed anyway
+		const T a = quadratic[ 2 ];
 		
-		const T root = std::sqrt( (b*b)-(2.*m2a*c) );// <- 2a instead of 4a, see above
-		const T x1 = (-b + root) / m2a;// <- here as well 2a instead of 4a
-		const T x2 = -(b + root) / m2a;
-		return Math::Vector< T, 2 >( x1, x2 );
+		const T root = std::sqrt( (b*b)-(4.*a*c) );
+		const T t = ( b < 0 ? root - b : -(b + root) ) / 2;
+		Math::Matrix< T, 2, 2 > result;
+		result( 0, 0 ) = t;
+		result( 0, 1 ) = a;
+		result( 1, 0 ) = c;
+		result( 1, 1 ) = t;
+		return result;
 	}
 };
 
@@ -78,8 +82,8 @@ bool estimatePose6D_6D6D_impl( InputIterator itBeginEye, const InputIterator itE
 	
 	const std::size_t n = std::distance( itBeginEye, itEndEye );
 	const std::size_t n2 = std::distance( itBeginHand, itEndHand );
-	assert( n == n2 );
-	assert( n > 2 );
+	if( n != n2 || n < 3 ) // <- algorithm needs at least 3 relative movements
+		return false;
 	
 	// create a 6*n-by-8 matrix with the following scheme:
 	// [a  - b ] [a  + b ]_x [0 0 0]^T [0_{3x3}]
@@ -88,7 +92,10 @@ bool estimatePose6D_6D6D_impl( InputIterator itBeginEye, const InputIterator itE
 	for( std::size_t index = 0; index<n; ++index, ++itBeginEye, ++itBeginHand )
 	{
 		const dual_type a = *itBeginEye;
-		const dual_type b = *itBeginHand;
+		dual_type b = *itBeginHand;
+		// both signs describe the same motion, but corresponding motions have equal scalar parts
+		if( a[ 0 ]*b[ 0 ] + a[ 4 ]*b[ 4 ] < 0 )
+			b *= -1;
 
 		const value_type ax = a[ 1 ];
 		const value_type ay = a[ 2 ];
@@ -188,15 +195,23 @@ bool estimatePose6D_6D6D_impl( InputIterator itBeginEye, const InputIterator itE
 	const value_type b = inner_product( u1, v2 ) + inner_product( u2, v1 ); 
 	const value_type c = inner_product( u2, v2 );
 	const Math::Vector< value_type, 3 > quEq( c, b, a );
-	const Math::Vector< value_type, 2 > s12 = Ubitrack::Math::SolveQuadratic()( quEq );
+	Math::Matrix< value_type, 2, 2 > s12 = Ubitrack::Math::SolveQuadratic()( quEq );
 	
 	const value_type dotU1 = inner_product( u1, u1 );
 	const value_type dotU1U2_2 = inner_product( u1, u2 ) * 2; // <- 2 times inner product
 	const value_type dotU2 = inner_product( u2, u2 );
-	const value_type s1 = s12[ 0 ] * s12[ 0 ] * dotU1 + s12[ 0 ] * dotU1U2_2 + dotU2;
-	const value_type s2 = s12[ 1 ] * s12[ 1 ] * dotU1 + s12[ 1 ] * dotU1U2_2 + dotU2;
-	const value_type lambda2 = (s1 > s2) ? std::sqrt( 1/s1 ) : std::sqrt( 1/s2 );
-	const value_type lambda1 = (s1 > s2) ? lambda2 * s12[ 0 ] : lambda2 * s12[ 1 ];
+	for( std::size_t k = 0; k < 2; ++k )
+	{
+		const value_type length = std::sqrt( s12( k, 0 ) * s12( k, 0 ) + s12( k, 1 ) * s12( k, 1 ) );
+		s12( k, 0 ) /= length;
+		s12( k, 1 ) /= length;
+	}
+	const value_type s1 = s12( 0, 0 ) * s12( 0, 0 ) * dotU1 + s12( 0, 0 ) * s12( 0, 1 ) * dotU1U2_2 + s12( 0, 1 ) * s12( 0, 1 ) * dotU2;
+	const value_type s2 = s12( 1, 0 ) * s12( 1, 0 ) * dotU1 + s12( 1, 0 ) * s12( 1, 1 ) * dotU1U2_2 + s12( 1, 1 ) * s12( 1, 1 ) * dotU2;
+	const std::size_t best = (s1 > s2) ? 0 : 1;
+	const value_type scale = std::sqrt( 1 / ( best ? s2 : s1 ) );
+	const value_type lambda1 = s12( best, 0 ) * scale;
+	const value_type lambda2 = s12( best, 1 ) * scale;
 	
 	if( (lambda1 != lambda1) || (lambda2 != lambda2) )
 	{
@@ -229,8 +244,8 @@ bool estimatePose6D_6D6D( const std::vector< Math::Pose >& eyes, Math::Pose& pos
 	// checking the validity of inputs
 	const std::size_t n_in = std::distance( eyes.begin(), eyes.end() );
 	const std::size_t n_in2 = std::distance( hands.begin(), hands.end() );
-	assert( n_in == n_in2 );
-	assert( n_in > 2 ); // <- algorithm needs at least 3 relative movements
+	if( n_in != n_in2 || n_in < 3 ) // <- algorithm needs at least 3 relative movements
+		return false;
 	
 	// determining the amount of relative pose movements
 	const std::size_t n = n_in-1;
-- 
2.43.0


From 5c21602bd2c291ccfaffad528521d2842293c0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:27 +0000
Subject: [PATCH 028/105] fix: return corresponding motions from the hand-eye
 data selection

select_6DPoses returned inverted rotations for motions beyond half a turn, uninitialised poses for empty clusters and read past the means for repeated poses; the incremental selection compared every motion with the first one
---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp | 11 ++++++++---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.h   |  6 +++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
index 2718ad8..82c8020 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
@@ -34,6 +34,7 @@
 
 
 #include "DataSelection.h"
+#include <utUtil/Exception.h>
 #include <utMath/Stochastic/k_means.h> // codebook generation
 
 #include <algorithm> //std::transform
@@ -53,8 +54,8 @@ void pose6D_selection_impl( const InputIterator itBeginEye, const InputIterator
 	
 	const std::size_t n_in = std::distance( itBeginEye, itEndEye );
 	const std::size_t n_2 = std::distance( itBeginHand, itEndHand );
-	assert( n_in == n_2 );
-	assert( n_in > 2u );
+	if( n_in != n_2 || n_in < 3u )
+		UBITRACK_THROW( "At least three pairs of poses are needed" );
 	
 	const std::size_t n = n_in-1;
 	const std::size_t m = use_all_pairs ? (n*n_in)/2 : n;
@@ -97,9 +98,10 @@ void pose6D_selection_impl( const InputIterator itBeginEye, const InputIterator
 	
 	
 	typename std::vector< pose_type >::iterator itCodebook = means.begin();
-	for( std::size_t i = 0; i<n_cluster; ++i, ++itCodebook )
+	for( std::size_t i = 0; i<means.size(); ++i, ++itCodebook )
 	{
 		T max_dist( 10000 );  // <- important: should be bigger than PI
+		bool found( false ); // <- clusters can be empty
 		pose_type nearestPoseA;
 		pose_type nearestPoseB;
 		
@@ -117,11 +119,14 @@ void pose6D_selection_impl( const InputIterator itBeginEye, const InputIterator
 				if( d < max_dist )
 				{
 					max_dist = d;
+					found = true;
 					nearestPoseA = *itPoseA;
 					nearestPoseB = *itPoseB;
 				}
 			}
 		}
+		if( !found )
+			continue;
 		*itEye++ = Math::pose_cast< output_type >()( nearestPoseA );
 		*itHand++ = Math::pose_cast< output_type >()( nearestPoseB );
 		// selected_a.push_back( nearestPoseA );
diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
index a9e6df0..9299560 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
@@ -311,7 +311,7 @@ struct hemisphere_alignment< Math::Vector< T, 6 >, true >
 		
 		if( angle > 3.1415926535897932384626433832795 )
 		{
-			const T new_angle = (2*3.1415926535897932384626433832795) - angle;
+			const T new_angle = angle - (2*3.1415926535897932384626433832795); // <- negative, the axis flips
 			const T ratio = new_angle/angle;
 			result[ 0 ] *= ratio;
 			result[ 1 ] *= ratio;
@@ -466,7 +466,7 @@ protected:
 	{
 		const std::size_t nIn = std::distance ( itBegin, itEnd );
 		const std::size_t nIs = std::distance ( relPoseList.begin(), relPoseList.end() );
-		assert( nIn <= nIs );
+		assert( nIs <= nIn );
 		
 		InputIterator it = itBegin;
 		std::advance( it, nIs );
@@ -506,7 +506,7 @@ protected:
 		IndexListType::const_iterator itIndex = indices.begin();
 		const IndexListType::const_iterator itIndexEnd = indices.end();
 		
-		for( std::size_t i = 0; itIndex != itIndexEnd; ++itIndex, *itPose , ++i )
+		for( std::size_t i = 0; itIndex != itIndexEnd; ++itIndex, ++itPose, ++i )
 		{
 			// choose codebook entry to lookup corresponding pose measurement
 			InputIterator2 itCodebook = itBeginCluster;	
-- 
2.43.0


From 980dc68da08bab94818c3c8a4fbb1fbb18166e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:27 +0000
Subject: [PATCH 029/105] fix: restart the best match of the incremental
 hand-eye calibration

HandEyeCalibration kept accumulating the selections of earlier calls
---
 src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h b/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
index fea1a31..e59f680 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
@@ -159,7 +159,9 @@ protected:
 		const std::size_t n = m ? m : static_cast< std::size_t >( sqrt( nRel/2. ) );
 		
 		// std::cerr << "n " << n << "\n";
+		relativePosesBestMatchA.clear();
 		relativePosesBestMatchA.reserve( n );
+		relativePosesBestMatchB.clear();
 		relativePosesBestMatchB.reserve( n );
 		m_DataSelection.resetComparisonPoses( n, relativePosesAllA );
 		m_DataSelection.getSelection( relativePosesAllA, std::back_inserter( relativePosesBestMatchA ) );
-- 
2.43.0


From 8ab7a210d92b0070ee0654054196df79c9c75e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:28 +0000
Subject: [PATCH 030/105] fix: align quaternion signs by scalar part in online
 hand-eye calibration

RotationHecKalmanFilter paired quaternions of opposite scalar part for large hidden rotations and diverged with a negative covariance
---
 src/utAlgorithm/RotationHecKalmanFilter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/RotationHecKalmanFilter.cpp b/src/utAlgorithm/RotationHecKalmanFilter.cpp
index 522f211..284850b 100644
--- a/src/utAlgorithm/RotationHecKalmanFilter.cpp
+++ b/src/utAlgorithm/RotationHecKalmanFilter.cpp
@@ -57,7 +57,7 @@ void RotationHecKalmanFilter::addMeasurement( const Math::Quaternion& a, const M
 	// TODO: for error propagation use RotHecCombine
 
 	// do the filter update
-	Function::RotHecMeasurement mf( a, b.negateIfCloser( a ) );
+	Function::RotHecMeasurement mf( a, a.w() * b.w() < 0 ? Math::Quaternion( -b ) : b );
 	Math::Stochastic::kalmanMeasurementUpdate< 4, 4 >( m_state, mf, kalmanMeasurement, 0, m_state.value.size() );
 
 	// normalize the result to ensure quaternion properties
-- 
2.43.0


From 6316859cb85f1f3fb209d9f6ca4c5675d3fc05c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:28 +0000
Subject: [PATCH 031/105] fix: report too few poses in tool tip calibration

tool tip calibration wrote out of bounds or returned an arbitrary tip for fewer than three poses
---
 src/utAlgorithm/ToolTip/LeastSquare.h      | 3 ++-
 src/utAlgorithm/ToolTip/Optimization.h     | 1 -
 src/utAlgorithm/ToolTip/TipCalibration.cpp | 4 +++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utAlgorithm/ToolTip/LeastSquare.h b/src/utAlgorithm/ToolTip/LeastSquare.h
index 35a1c03..0430ebf 100644
--- a/src/utAlgorithm/ToolTip/LeastSquare.h
+++ b/src/utAlgorithm/ToolTip/LeastSquare.h
@@ -96,7 +96,8 @@ bool estimatePosition3D_6D( Math::Vector< T, 3 >& pw
 	namespace lapack = boost::numeric::bindings::lapack;
 	
 	const std::size_t nPoses = std::distance( iBegin, iEnd );
-	assert( nPoses > 2 );
+	if( nPoses < 3 )
+		return false;
 	
 	typename Math::Matrix< T >::base_type a( 3 * nPoses, 6 );
 	typename Math::Vector< T >::base_type v( 3 * nPoses );
diff --git a/src/utAlgorithm/ToolTip/Optimization.h b/src/utAlgorithm/ToolTip/Optimization.h
index b19caf0..b3542c2 100644
--- a/src/utAlgorithm/ToolTip/Optimization.h
+++ b/src/utAlgorithm/ToolTip/Optimization.h
@@ -205,7 +205,6 @@ bool estimatePosition3D_6D( Math::Vector< T, 3 >& pw
 	return false;
 #else
 	const std::size_t n = std::distance( iBegin, iEnd );
-	assert( n > 2 );
 	
 	// 1) estimate a first initial guess
 	if( !estimatePosition3D_6D( pw, iBegin, iEnd, pm ) )
diff --git a/src/utAlgorithm/ToolTip/TipCalibration.cpp b/src/utAlgorithm/ToolTip/TipCalibration.cpp
index db255e2..fd83b4f 100644
--- a/src/utAlgorithm/ToolTip/TipCalibration.cpp
+++ b/src/utAlgorithm/ToolTip/TipCalibration.cpp
@@ -37,6 +37,7 @@
 #include "LeastSquare.h"
 #include "Optimization.h"
 #include "Ransac.h"
+#include <utUtil/Exception.h>
 
 
 namespace Ubitrack { namespace Algorithm { namespace ToolTip {
@@ -45,7 +46,8 @@ namespace Ubitrack { namespace Algorithm { namespace ToolTip {
 void tipCalibration( const std::vector< Math::Pose >& poses, 
 	Math::Vector< double, 3 >& pm, Math::Vector< double, 3 >& pw )
 {
-	estimatePosition3D_6D< double >( pw, poses.begin(), poses.end(), pm );
+	if( !estimatePosition3D_6D< double >( pw, poses.begin(), poses.end(), pm ) )
+		UBITRACK_THROW( "Tool tip calibration failed" );
 }
 
 /// @internal specialization of tooltip calibration for type \c float
-- 
2.43.0


From 015edca48605d0ee4855eabc65a58e842dab3bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:17 +0000
Subject: [PATCH 032/105] fix: report unusable correspondences in homography
 and projection estimation

homographyDLT, squareHomography and projectionDLT read out of bounds for lists of different length and returned arbitrary matrices for too few points
---
 src/utAlgorithm/Homography.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/utAlgorithm/Homography.cpp b/src/utAlgorithm/Homography.cpp
index 20dabd7..d283d4f 100644
--- a/src/utAlgorithm/Homography.cpp
+++ b/src/utAlgorithm/Homography.cpp
@@ -30,6 +30,7 @@
  */ 
 
 #include "Homography.h"
+#include <utUtil/Exception.h>
 #include <utMath/Geometry/PointNormalization.h>
 
 #ifdef HAVE_LAPACK
@@ -47,8 +48,10 @@ Math::Matrix< T, 3, 3 > homographyDLTImpl( const std::vector< Math::Vector< T, 2
 	const std::vector< Math::Vector< T, 2 > >& toPoints )
 {
 	const std::size_t n_points ( fromPoints.size() );
-	assert( n_points == toPoints.size() );
-	assert( n_points >= 4 );
+	if ( n_points != toPoints.size() )
+		UBITRACK_THROW( "Illegal number of correspondences" );
+	if ( n_points < 4 )
+		UBITRACK_THROW( "Homography needs at least 4 correspondences" );
 
 	// normalize input points
 	Math::Vector< T, 2 > fromShift;
@@ -123,7 +126,8 @@ template< typename T >
 Math::Matrix< T, 3, 3 > squareHomographyImpl( const std::vector< Math::Vector< T, 2 > >& corners )
 {
 	// homography computation � la Harker & O'Leary, simplified for squares
-	assert( corners.size() == 4 );
+	if ( corners.size() != 4 )
+		UBITRACK_THROW( "Square homography needs 4 corners" );
 	
 	// subtract mean from points
 	Math::Vector< T, 2 > c[ 4 ];
-- 
2.43.0


From 7f53d155896e4369a4332bc73b8d1479c2322025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:18 +0000
Subject: [PATCH 033/105] fix: scale the translation when decomposing
 projection matrices

decomposeProjection returned a wrong translation for matrices whose third row is not normalised; projectionDLT accepted too few or mismatching points
---
 src/utAlgorithm/Projection.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/utAlgorithm/Projection.cpp b/src/utAlgorithm/Projection.cpp
index 50cb7a5..401022f 100644
--- a/src/utAlgorithm/Projection.cpp
+++ b/src/utAlgorithm/Projection.cpp
@@ -30,6 +30,7 @@
  */
 
 #include "Projection.h"
+#include <utUtil/Exception.h>
 #include <utMath/VectorFunctions.h>
 #include <utMath/Geometry/PointNormalization.h>
 
@@ -59,8 +60,10 @@ template< typename T >
 Math::Matrix< T, 3, 4 >projectionDLTImpl( const std::vector< Math::Vector< T, 3 > >& fromPoints,
 	const std::vector< Math::Vector< T, 2 > >& toPoints )
 {
-	assert( fromPoints.size() == toPoints.size() );
-	assert( fromPoints.size() >= 6 );
+	if ( fromPoints.size() != toPoints.size() )
+		UBITRACK_THROW( "Illegal number of correspondences" );
+	if ( fromPoints.size() < 6 )
+		UBITRACK_THROW( "Projection needs at least 6 correspondences" );
 
 	// normalize input points
 	Math::Vector< T, 3 > fromShift;
@@ -200,7 +203,7 @@ template< typename T > void decomposeProjectionImpl( Math::Matrix< T, 3, 3 >& k,
 	k *= f;
 
 	// compute translation vector: t = K^-1 p^4
-	Math::Matrix< T, 3, 1 > ttmp = ublas::subrange( P, 0, 3, 3, 4 );
+	Math::Matrix< T, 3, 1 > ttmp = ublas::subrange( P, 0, 3, 3, 4 ) * f;
 	blas::trsm( 'L', 'U', 'N', 'N', 1.0f, k, ttmp );
 	t = ublas::column( ttmp, 0 );
 }
-- 
2.43.0


From 78d6998f11be64ccda21ee61d2165d0191a077b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:47 +0000
Subject: [PATCH 034/105] fix: return the position of the uncovered zero in
 Munkres

find_uncovered_in_matrix wrote the position it found to shadowing locals, so the assignment solver primed entry (0,0) or an old one, returned non-optimal assignments and did not terminate on many square matrices
---
 src/utMath/Graph/Munkres.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index 3f1310f..ccbf1e8 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -138,9 +138,9 @@ Munkres< T >::Munkres( Math::Matrix< T, 0, 0 > & matrix)
 
 template< typename T >
 bool Munkres< T >::find_uncovered_in_matrix(T item, std::size_t & row, std::size_t & col) {
-	for ( std::size_t row( 0 ) ; row < m_max ; ++row )
+	for ( row = 0 ; row < m_max ; ++row )
 		if ( !row_mask[row] )
-			for ( std::size_t col( 0 ) ; col < m_max ; ++col )
+			for ( col = 0 ; col < m_max ; ++col )
 				if ( !col_mask[col] )
 					if ( m_matrix( row, col ) == item )
 						return true;
-- 
2.43.0


From fbeb5b1d3968a6182777a7de70bb248d29613a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:47 +0000
Subject: [PATCH 035/105] fix: pad rectangular cost matrices correctly

setMatrix passed the length instead of the end of the padded range: rectangular cost matrices were padded out of place or read out of bounds
---
 src/utMath/Graph/Munkres.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index ccbf1e8..28563c2 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -376,14 +376,14 @@ void Munkres< T >::setMatrix( Math::Matrix< T, 0, 0 > & matrix )
 	{
 		m_matrix.resize( matrix.size1(), matrix.size1() );
 		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), 0, matrix.size2() ) = matrix;
-		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), matrix.size2(), matrix.size1() - matrix.size2() ) = 
+		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), matrix.size2(), matrix.size1() ) = 
 			boost::numeric::ublas::scalar_matrix< T >( matrix.size1(), matrix.size1() - matrix.size2(), vMax );
 	}
 	else
 	{
 		m_matrix.resize( matrix.size2(), matrix.size2(), false );
 		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), 0, matrix.size2() ) = matrix;
-		boost::numeric::ublas::subrange( m_matrix, matrix.size1(), matrix.size2() - matrix.size1(), 0, matrix.size2() ) = 
+		boost::numeric::ublas::subrange( m_matrix, matrix.size1(), matrix.size2(), 0, matrix.size2() ) = 
 			boost::numeric::ublas::scalar_matrix< T >( matrix.size2() - matrix.size1(), matrix.size2(), vMax );
 	}
 
-- 
2.43.0


From 38474b55a4f32cb65f124417e8beff1d9722dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:47 +0000
Subject: [PATCH 036/105] fix: free the row and column masks of Munkres

every call of solve() leaked the row and column masks, and solving a default constructed object used an uninitialised size
---
 src/utMath/Graph/Munkres.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index 28563c2..6056c1e 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -113,8 +113,8 @@ private:
 	int step6();
 	boost::numeric::ublas::matrix< int > mask_matrix;
 	Math::Matrix< T, 0, 0 > m_matrix;
-	bool *row_mask;
-	bool *col_mask;
+	std::vector< bool > row_mask;
+	std::vector< bool > col_mask;
 	std::size_t saverow, savecol;
 	std::size_t m_max;
 };
@@ -124,6 +124,7 @@ template< typename T >
 Munkres< T >::Munkres()
 	: saverow( 0 )
 	, savecol( 0 )
+	, m_max( 0 )
 {
 	
 }
@@ -416,13 +417,8 @@ void Munkres< T >::solve()
 	int step ( 1 );
 
 	// Z_STAR == 1 == starred, Z_PRIME == 2 == primed
-	row_mask = new bool[m_max];
-	col_mask = new bool[m_max];
-	for ( std::size_t i( 0 ) ; i < m_max ; ++i ) 
-	{
-		row_mask[i] = false;
-		col_mask[i] = false;
-	}
+	row_mask.assign( m_max, false );
+	col_mask.assign( m_max, false );
 
 	while ( notdone ) 
 	{
-- 
2.43.0


From 1544c433a6a1ed28febd79fd5f0064e9d5b54f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:29 +0000
Subject: [PATCH 037/105] fix: keep the reprojection when normalizing bundle
 adjusted poses

simpleBundleAdjustment normalised the optimised quaternion without rescaling the translation, so the returned cameras and points had a larger reprojection error than the optimum and often than the start
---
 src/utAlgorithm/BundleAdjustment.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utAlgorithm/BundleAdjustment.cpp b/src/utAlgorithm/BundleAdjustment.cpp
index f137c7c..fdb0a24 100644
--- a/src/utAlgorithm/BundleAdjustment.cpp
+++ b/src/utAlgorithm/BundleAdjustment.cpp
@@ -319,8 +319,11 @@ void simpleBundleAdjustmentImpl (
 	for ( std::size_t cameraIndex = 0; cameraIndex < n_cams; ++cameraIndex, ++poseIter )
 	{
 		const std::size_t index = 7*cameraIndex;
-		const Math::Quaternion quat = Math::Quaternion::fromVector( boost::numeric::ublas::subrange( paramVector, index, index+4 ) ).normalize();
-		const Math::Vector< value_type, 3 > trans ( boost::numeric::ublas::subrange( paramVector, index+4, index+7 ) );
+		const Math::Vector< value_type, 4 > quatVec ( boost::numeric::ublas::subrange( paramVector, index, index+4 ) );
+		const Math::Quaternion quat = Math::Quaternion::fromVector( quatVec ).normalize();
+		// the optimized (unnormalized) quaternion scales the points by its squared norm, move this scale to the translation
+		const value_type scale = boost::numeric::ublas::inner_prod( quatVec, quatVec );
+		const Math::Vector< value_type, 3 > trans ( boost::numeric::ublas::subrange( paramVector, index+4, index+7 ) / scale );
 		*poseIter = Math::Pose( quat, trans );
 		LOG4CPP_TRACE( logger, "Camera #" << cameraIndex << " translation: " << poseIter->translation() << ", quaternion: " << poseIter->rotation() << " (updated)." );
 	}
-- 
2.43.0


From 8d562f458634992a5deeaa6928f3bf784bb1c308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:29 +0000
Subject: [PATCH 038/105] fix: report inconsistent input of bundle adjustment

simpleBundleAdjustment accessed memory out of bounds when a camera had no pose or not exactly one observation per point
---
 src/utAlgorithm/BundleAdjustment.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/utAlgorithm/BundleAdjustment.cpp b/src/utAlgorithm/BundleAdjustment.cpp
index fdb0a24..4adcf2e 100644
--- a/src/utAlgorithm/BundleAdjustment.cpp
+++ b/src/utAlgorithm/BundleAdjustment.cpp
@@ -218,6 +218,18 @@ public:
  * @tparam ForwardIterator2 iterator to container including extrinsic camera pose
  * @tparam ForwardIterator3 iterator to container including 3D points
  */
+/** checks that there is a pose for each camera and an observation of each point in each camera */
+template< typename Observations, typename Points >
+void checkBundleSizes( const std::vector< Observations >& pts2D, const std::vector< Math::Pose >& poses, const Points& pts3D )
+{
+	if ( pts2D.size() != poses.size() )
+		UBITRACK_THROW( "Bundle adjustment requires one pose per camera" );
+
+	for ( std::size_t i = 0; i < pts2D.size(); ++i )
+		if ( pts2D[ i ].size() != pts3D.size() )
+			UBITRACK_THROW( "Bundle adjustment requires an observation of each point in each camera" );
+}
+
 template< typename ForwardIterator1, typename ForwardIterator2, typename ForwardIterator3 >
 void simpleBundleAdjustmentImpl (
 	  const ForwardIterator1 i2DPtsBegin // e.g. std::vector< std::vector< Math::Vector< T, 2 > > >::iterator -> begin()
@@ -331,11 +343,13 @@ void simpleBundleAdjustmentImpl (
 
 void simpleBundleAdjustment( const std::vector< std::vector< Math::Vector2d > >& pts2D, std::vector< Math::Pose >& poses, std::vector< Math::Vector3d > & pts3D )
 {
+	checkBundleSizes( pts2D, poses, pts3D );
 	simpleBundleAdjustmentImpl( pts2D.begin(), pts2D.end(), poses.begin(), pts3D.begin(), pts3D.end() );
 }
 
 void simpleBundleAdjustment( const std::vector< std::vector< Math::Vector2f > >& pts2D,  std::vector< Math::Pose >& poses, std::vector< Math::Vector3f > & pts3D )
 {
+	checkBundleSizes( pts2D, poses, pts3D );
 	simpleBundleAdjustmentImpl( pts2D.begin(), pts2D.end(), poses.begin(), pts3D.begin(), pts3D.end() );
 }
 
-- 
2.43.0


From f1c6b738eda2ef0ce0e3041a0b5ffcc2fbd9ba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:29 +0000
Subject: [PATCH 039/105] fix: transform the initial pose to the world in
 multi-camera pose estimation

multipleCameraPoseEstimation without initial pose started from camera pose * (pose in camera) although camera poses map from world to camera, and ended far from the truth
---
 src/utAlgorithm/MultipleCameraPoseOptimization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
index bd57117..c624276 100644
--- a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
+++ b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
@@ -130,7 +130,7 @@ std::pair < Math::ErrorPose , double >
 		// Compute initial pose
 		if (!hasInitialPoseProvided) {
 			OPT_LOG_DEBUG(  "Compute initial pose with "<<p2dLocal.at(maxObsIndex).size() << " observations for camera " << maxObsIndex );
-			initialPose = camPoses.at( maxObsIndex ) * Algorithm::PoseEstimation2D3D::computePose( p2dLocal.at( maxObsIndex) , p3dLocalFiltered.at( maxObsIndex) ,
+			initialPose = ~camPoses.at( maxObsIndex ) * Algorithm::PoseEstimation2D3D::computePose( p2dLocal.at( maxObsIndex) , p3dLocalFiltered.at( maxObsIndex) ,
 				camMatrices.at( maxObsIndex ), PoseEstimation2D3D::PLANAR_HOMOGRAPHY ); // there are no scoped enums in C++98 (only in C++0x onwards)
 			OPT_LOG_DEBUG(  "Initial pose "<<initialPose );
 		}
-- 
2.43.0


From acfb58a8b8615de39856098423189447432bfd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:29 +0000
Subject: [PATCH 040/105] fix: report unusable bundle sizes in multi-camera
 pose estimation

local bundles exceeding the points read out of bounds, an empty first bundle was taken for all points, and an empty camera list dereferenced the end iterator
---
 src/utAlgorithm/MultipleCameraPoseOptimization.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
index c624276..c8ef104 100644
--- a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
+++ b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
@@ -203,6 +203,9 @@ void checkConsistency (
 	if ( points2d.size() != points2dWeights.size() || points2d.size() != camPoses.size() || points2d.size() != camMatrices.size() )
 		UBITRACK_THROW( "All input sets must have the same number of cameras" );
 
+	if ( points2d.empty() )
+		UBITRACK_THROW( "2D6D pose estimation requires at least 1 camera" );
+
 	for ( size_t cameraIndex = 0; cameraIndex < numberCameras; cameraIndex++ )
 	{
 		if ( points3d.size() != points2dWeights[ cameraIndex ].size() || points3d.size() != points2d[ cameraIndex ].size() )
@@ -237,6 +240,8 @@ void multipleCameraPoseEstimationWithLocalBundles (
 
 		// Get the number of marker corners for the current cube
 		int localBundleSize = localBundleSizes.at( localBundleIndex );
+		if ( localBundleSize < 1 || localBundleOffset + localBundleSize > static_cast< int >( points3d.size() ) )
+			UBITRACK_THROW( "The local bundles do not match the number of points" );
 
 		LOG4CPP_DEBUG( logger, "Local bundle " << localBundleIndex <<" has "<<localBundleSize<< " 2d points. Offset in global bundle list: "<<localBundleOffset);
 
-- 
2.43.0


From 542ddd2d32a38372b21b288158e7a46103d0dfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:29 +0000
Subject: [PATCH 041/105] fix: count the sampled points in getFundamentalMatrix

a step size leaving fewer than 8 of the points was not reported and returned an arbitrary matrix
---
 src/utAlgorithm/FundamentalMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/FundamentalMatrix.cpp b/src/utAlgorithm/FundamentalMatrix.cpp
index ffc7476..285bf7c 100644
--- a/src/utAlgorithm/FundamentalMatrix.cpp
+++ b/src/utAlgorithm/FundamentalMatrix.cpp
@@ -98,7 +98,7 @@ Math::Matrix< T, 3, 3 > getFundamentalMatrixImpl( const std::vector< Math::Vecto
 		UBITRACK_THROW ( "Input sizes do not match" );	
 	}
 	
-	if( fromPoints.size() < 8 )
+	if( fromPoints.size() / stepSize < 8 )
 	{
 		LOG4CPP_ERROR ( logger, "Input sizes of the vectors to small ");
 		UBITRACK_THROW ( "Input sizes to small. Use at least 8 values" );	
-- 
2.43.0


From 85aa8288ab26ed7af8b12251bbffa8f945875cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:54 +0000
Subject: [PATCH 042/105] fix: normalize camera poses during bundle adjustment

simpleBundleAdjustment optimised unnormalised quaternions with a residual and a derivative of different models; it stopped far from the optimum and the normalised result often had a larger reprojection error than the start (replaces the rescaling of 1544c43)
---
 src/utAlgorithm/BundleAdjustment.cpp | 41 ++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/utAlgorithm/BundleAdjustment.cpp b/src/utAlgorithm/BundleAdjustment.cpp
index 4adcf2e..0285934 100644
--- a/src/utAlgorithm/BundleAdjustment.cpp
+++ b/src/utAlgorithm/BundleAdjustment.cpp
@@ -213,11 +213,28 @@ public:
 	}
 };
 
-/** 
- * @tparam ForwardIterator1 iterator to container including containers of 2D observations
- * @tparam ForwardIterator2 iterator to container including extrinsic camera pose
- * @tparam ForwardIterator3 iterator to container including 3D points
- */
+/** normalizes the rotations of all cameras after each step of the optimization and factors the difference into the translations */
+struct NormalizeCameraPoses
+{
+	const std::size_t n_cams;
+
+	explicit NormalizeCameraPoses( const std::size_t cams )
+		: n_cams( cams )
+	{}
+
+	template< class VT1, class VT2 >
+	void evaluate( VT1& result, const VT2& input ) const
+	{
+		namespace ublas = boost::numeric::ublas;
+		for ( std::size_t i = 0; i < n_cams; ++i )
+		{
+			const typename VT1::value_type quatLen = ublas::norm_2( ublas::subrange( input, i*7, i*7+4 ) );
+			ublas::subrange( result, i*7, i*7+4 ) = ublas::subrange( input, i*7, i*7+4 ) / quatLen;
+			ublas::subrange( result, i*7+4, i*7+7 ) = ublas::subrange( input, i*7+4, i*7+7 ) / ( quatLen * quatLen );
+		}
+	}
+};
+
 /** checks that there is a pose for each camera and an observation of each point in each camera */
 template< typename Observations, typename Points >
 void checkBundleSizes( const std::vector< Observations >& pts2D, const std::vector< Math::Pose >& poses, const Points& pts3D )
@@ -230,6 +247,11 @@ void checkBundleSizes( const std::vector< Observations >& pts2D, const std::vect
 			UBITRACK_THROW( "Bundle adjustment requires an observation of each point in each camera" );
 }
 
+/** 
+ * @tparam ForwardIterator1 iterator to container including containers of 2D observations
+ * @tparam ForwardIterator2 iterator to container including extrinsic camera pose
+ * @tparam ForwardIterator3 iterator to container including 3D points
+ */
 template< typename ForwardIterator1, typename ForwardIterator2, typename ForwardIterator3 >
 void simpleBundleAdjustmentImpl (
 	  const ForwardIterator1 i2DPtsBegin // e.g. std::vector< std::vector< Math::Vector< T, 2 > > >::iterator -> begin()
@@ -314,7 +336,7 @@ void simpleBundleAdjustmentImpl (
 	
 	OPT_LOG_DEBUG( "Optimizing pose over " << numberCameras << " cameras using " << observationCountTotal << " observations" );
 	MinimizeReprojectionErrorAllPoints< value_type > minimizeFunc( n_cams, n_pts3D );
-	value_type res = Math::Optimization::levenbergMarquardt( minimizeFunc, paramVector, observationVector, Math::Optimization::OptTerminate( 10, 1e-6 ), Math::Optimization::OptNoNormalize() );
+	value_type res = Math::Optimization::levenbergMarquardt( minimizeFunc, paramVector, observationVector, Math::Optimization::OptTerminate( 10, 1e-6 ), NormalizeCameraPoses( n_cams ) );
 	
 	// LOG4CPP_TRACE( logger, "optimized parameter vector:\n" << paramVector );
 	
@@ -331,11 +353,8 @@ void simpleBundleAdjustmentImpl (
 	for ( std::size_t cameraIndex = 0; cameraIndex < n_cams; ++cameraIndex, ++poseIter )
 	{
 		const std::size_t index = 7*cameraIndex;
-		const Math::Vector< value_type, 4 > quatVec ( boost::numeric::ublas::subrange( paramVector, index, index+4 ) );
-		const Math::Quaternion quat = Math::Quaternion::fromVector( quatVec ).normalize();
-		// the optimized (unnormalized) quaternion scales the points by its squared norm, move this scale to the translation
-		const value_type scale = boost::numeric::ublas::inner_prod( quatVec, quatVec );
-		const Math::Vector< value_type, 3 > trans ( boost::numeric::ublas::subrange( paramVector, index+4, index+7 ) / scale );
+		const Math::Quaternion quat = Math::Quaternion::fromVector( boost::numeric::ublas::subrange( paramVector, index, index+4 ) ).normalize();
+		const Math::Vector< value_type, 3 > trans ( boost::numeric::ublas::subrange( paramVector, index+4, index+7 ) );
 		*poseIter = Math::Pose( quat, trans );
 		LOG4CPP_TRACE( logger, "Camera #" << cameraIndex << " translation: " << poseIter->translation() << ", quaternion: " << poseIter->rotation() << " (updated)." );
 	}
-- 
2.43.0


From 76ec729924fdd05610391f7f50abfb9989c87ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:52 +0000
Subject: [PATCH 043/105] fix: size the result list of the list forms of
 distort and undistort

distort/undistort of a list of points wrote past the end of a result list that was not sized by the caller
---
 src/utAlgorithm/CameraLens/Distortion.h   | 2 ++
 src/utAlgorithm/CameraLens/Undistortion.h | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/utAlgorithm/CameraLens/Distortion.h b/src/utAlgorithm/CameraLens/Distortion.h
index 8e3448a..3e97739 100644
--- a/src/utAlgorithm/CameraLens/Distortion.h
+++ b/src/utAlgorithm/CameraLens/Distortion.h
@@ -113,6 +113,7 @@ inline void distort( const RadVec& radVec, const TanVec& tanVec, const UndisType
 template< typename T, std::size_t N >
 inline void distort( const Math::Vector< T, 6 >& radVec, const Math::Vector< T, 2 >& tanVec, const std::vector< Math::Vector< T, N > >& pointsIn, std::vector< Math::Vector< T, N > >& result )
 {
+	result.resize( pointsIn.size() );
 	typename std::vector< Math::Vector< T, N > >::const_iterator itBegin = pointsIn.begin();
 	const typename std::vector< Math::Vector< T, N > >::const_iterator itEnd = pointsIn.end();
 	/// @todo check here if same vector is used as output or another -> could be std::back_inserter than
@@ -131,6 +132,7 @@ inline void distort_impl( const Math::CameraIntrinsics< T >& camIntrin,  const M
 template< typename T, std::size_t N >
 inline void distort_impl( const Math::CameraIntrinsics< T > camIntrin, const std::vector< Math::Vector< T, N > >& pointsIn, std::vector< Math::Vector< T, N > >& result )
 {
+	result.resize( pointsIn.size() );
 	typename std::vector< Math::Vector< T, N > >::const_iterator itBegin = pointsIn.begin();
 	const typename std::vector< Math::Vector< T, N > >::const_iterator itEnd = pointsIn.end();
 	/// @todo check here if same vector is used as output or another -> could be std::back_inserter than
diff --git a/src/utAlgorithm/CameraLens/Undistortion.h b/src/utAlgorithm/CameraLens/Undistortion.h
index f58f465..4653010 100644
--- a/src/utAlgorithm/CameraLens/Undistortion.h
+++ b/src/utAlgorithm/CameraLens/Undistortion.h
@@ -226,6 +226,7 @@ void undistort_impl( const Math::CameraIntrinsics< T >& mat, const Math::Vector<
 template< typename T, std::size_t N >
 inline void undistort_impl( const Math::CameraIntrinsics< T > camIntrin, const std::vector< Math::Vector< T, N > >& pointsIn, std::vector< Math::Vector< T, N > >& result )
 {
+	result.resize( pointsIn.size() );
 	typename std::vector< Math::Vector< T, N > >::const_iterator itBegin = pointsIn.begin();
 	const typename std::vector< Math::Vector< T, N > >::const_iterator itEnd = pointsIn.end();
 	/// @todo check here if same vector is used as output or another -> could be std::back_inserter than
-- 
2.43.0


From 793c59f95c0de60deb63b91cda74a8085f1574c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:52 +0000
Subject: [PATCH 044/105] fix: CameraIntrinsics: use the image size given to
 the generic constructor

the generic constructor ignored its image size: the resolution was (0,0) and all angles of view 0
---
 src/utMath/CameraIntrinsics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index 5c38145..607772a 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -195,7 +195,7 @@ public:
 	template< typename IntType >
 	CameraIntrinsics(const Math::Vector< IntType, 2 >& size, const Math::Matrix< T, 3, 3 > &intrinsicMatrix, const std::size_t radSize, const Math::Vector< T, 6 > &_radial, const Math::Vector< T, 2 > &_tangential, const std::size_t width = 0, const std::size_t height = 0)
 		: calib_type( UNKNOWN )
-		, dimension(Math::Vector< std::size_t, 2 >(width, height))
+		, dimension(Math::Vector< std::size_t, 2 >( width ? width : static_cast< std::size_t >( size( 0 ) ), height ? height : static_cast< std::size_t >( size( 1 ) ) ))
 		, matrix( intrinsicMatrix )
 		, radial_size( radSize )
 		, radial_params( _radial )
-- 
2.43.0


From bff7a76a82f91b05e931c7b57e278a13f48ea21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 045/105] fix: projectWithDistortion: distort in the
 coordinates of lensDistort

for intrinsics with K(2,2)=-1 projectWithDistortion mirrored the point before distorting it and disagreed with project followed by lensDistort
---
 src/utAlgorithm/LensDistortion.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utAlgorithm/LensDistortion.cpp b/src/utAlgorithm/LensDistortion.cpp
index d4936e0..91c13d5 100644
--- a/src/utAlgorithm/LensDistortion.cpp
+++ b/src/utAlgorithm/LensDistortion.cpp
@@ -43,7 +43,7 @@ Math::Vector< T, 2 > projectWithDistortionImpl( const Math::Vector< T, 3 >& p, c
 	const Math::Matrix< T, 3, 3 >& K )
 {
 	// dehomogenize point
-	Math::Vector< T, 2 > dehomogenized( p( 0 ) / p( 2 ), p( 1 ) / p( 2 ) );
+	Math::Vector< T, 2 > dehomogenized( p( 0 ) / ( p( 2 ) * K( 2, 2 ) ), p( 1 ) / ( p( 2 ) * K( 2, 2 ) ) );
 
 	// distort
 	Math::Vector< T, 2 > dp;
@@ -51,8 +51,8 @@ Math::Vector< T, 2 > projectWithDistortionImpl( const Math::Vector< T, 3 >& p, c
 
 	// back to image coordinates
 	return Math::Vector< T, 2 >( 
-		( dp( 0 ) * K( 0, 0 ) + dp( 1 ) * K( 0, 1 ) + K( 0, 2 ) ) / K( 2, 2 ), 
-		(                       dp( 1 ) * K( 1, 1 ) + K( 1, 2 ) ) / K( 2, 2 ) );
+		dp( 0 ) * K( 0, 0 ) + dp( 1 ) * K( 0, 1 ) + K( 0, 2 ) * K( 2, 2 ), 
+		dp( 1 ) * K( 1, 1 ) + K( 1, 2 ) * K( 2, 2 ) );
 }
 
 
-- 
2.43.0


From afb426bb851f3049f95ae197b7bc91dc390c385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:20 +0000
Subject: [PATCH 046/105] fix: LinearPoseMotionModel: start without process
 noise

the process noise of orders that were not set was uninitialised memory and made covariances of the pose filter NaN or arbitrary
---
 src/utTracking/LinearPoseMotionModel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utTracking/LinearPoseMotionModel.h b/src/utTracking/LinearPoseMotionModel.h
index 43536fd..75d8059 100644
--- a/src/utTracking/LinearPoseMotionModel.h
+++ b/src/utTracking/LinearPoseMotionModel.h
@@ -51,7 +51,7 @@ public:
 	LinearPoseMotionModel( int posOrder, int oriOrder )
 		: m_posOrder( posOrder )
 		, m_oriOrder( oriOrder )
-		, m_processNoise( 3 + 3 * m_posOrder + ( m_oriOrder >= 0 ? 4 + 3 * m_oriOrder : 0 ) )
+		, m_processNoise( Math::Vector< double >::zeros( 3 + 3 * m_posOrder + ( m_oriOrder >= 0 ? 4 + 3 * m_oriOrder : 0 ) ) )
 	{
 	}
 	
-- 
2.43.0


From dd999bf1a25d59e704a99591a222692fbc836a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:20 +0000
Subject: [PATCH 047/105] fix: RotationOnlyKF: predict for times before the
 last measurement

predicting for a time slightly before the last measurement extrapolated by 584 years (unsigned difference)
---
 src/utTracking/RotationOnlyKf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utTracking/RotationOnlyKf.cpp b/src/utTracking/RotationOnlyKf.cpp
index b0af0fa..3419d25 100644
--- a/src/utTracking/RotationOnlyKf.cpp
+++ b/src/utTracking/RotationOnlyKf.cpp
@@ -126,7 +126,7 @@ void RotationOnlyKF::timeUpdate( Measurement::Timestamp t )
 Measurement::Rotation RotationOnlyKF::predict( Measurement::Timestamp t )
 {
 	// time update: forward filter to requested timestamp
-	double dt = ( t - m_time ) * 1e-9;
+	double dt = ( (long long int)( t - m_time ) ) * 1e-9;
 	Math::ErrorVector< double, 4 > result = Math::Stochastic::transformWithCovariance< 4, 7 >( Function::QuaternionTimeUpdate( dt ), m_state );
 	
 	return Measurement::Rotation( t, Math::Quaternion::fromVector( result.value ).normalize() );
-- 
2.43.0


From 57decf94d23cdbbc73d5e92a68da70923ef87a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 048/105] fix: PoseKalmanFilter: negate the cross covariance
 with the quaternion

the filtered pose depended on the sign of the measured quaternion when position and orientation errors are correlated
---
 src/utTracking/PoseKalmanFilter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utTracking/PoseKalmanFilter.cpp b/src/utTracking/PoseKalmanFilter.cpp
index b44df32..105a9d7 100644
--- a/src/utTracking/PoseKalmanFilter.cpp
+++ b/src/utTracking/PoseKalmanFilter.cpp
@@ -117,7 +117,11 @@ void PoseKalmanFilter::addPoseMeasurement( const Measurement::ErrorPose& m )
 	
 	// negate quaternion
 	if ( ublas::inner_prod( rotSubState, ublas::subrange( v.value, 3, 7 ) ) < 0 )
+	{
 		ublas::subrange( v.value, 3, 7 ) *= -1;
+		ublas::subrange( v.covariance, 0, 3, 3, 7 ) *= -1;
+		ublas::subrange( v.covariance, 3, 7, 0, 3 ) *= -1;
+	}
 	
 	// measurement update:
 	Math::Stochastic::kalmanMeasurementUpdate( m_state, m_covariance, PoseMeasurement( iR ), v.value, v.covariance, 0, iR + 4 );
-- 
2.43.0


From 23799ed889ee6e846a4e46ff28fbdc36ddde362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:59 +0000
Subject: [PATCH 049/105] fix: Average: collect rotations in the hemisphere of
 the values so far

the average of rotations, poses or error poses close to a half turn (w changes sign) was far off, e.g. the identity for 179 and 181 degrees
---
 src/utMath/Stochastic/Average.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/utMath/Stochastic/Average.h b/src/utMath/Stochastic/Average.h
index 8c94588..cda0da6 100644
--- a/src/utMath/Stochastic/Average.h
+++ b/src/utMath/Stochastic/Average.h
@@ -153,10 +153,12 @@ struct Average< ResultType, 1 >
 template<>
 void Average< Math::Quaternion >::operator() ( const value_type& value )
 {
-	++m_counter;
 	mean_type tmp;
 	Util::castToVector( value, tmp );
-	m_mean += (( value.w() >= 0 ) ? tmp : tmp * (-1) );
+	// q and -q are the same rotation, choose the one closer to the values so far
+	const precision_type side = m_counter ? m_mean[ 0 ]*tmp[ 0 ] + m_mean[ 1 ]*tmp[ 1 ] + m_mean[ 2 ]*tmp[ 2 ] + m_mean[ 3 ]*tmp[ 3 ] : tmp[ 3 ];
+	++m_counter;
+	m_mean += (( side >= 0 ) ? tmp : tmp * (-1) );
 };
 
 /// overloaded getAverage function for Quaternion measurements, when new struct is available this should not be necessary anymore.
@@ -171,18 +173,19 @@ Math::Quaternion Average< Math::Quaternion >::getAverage() const
 template<>
 void Average< Math::Pose >::operator() ( const value_type& value )
 {
-	++m_counter;
 	mean_type tmp;
 	Util::castToVector( value, tmp );
 	// The order is tx, ty, tz, qx, qy, qz, qw.
-	// check now for real part (==qw) being positive and correct if necessary:
-	if( tmp[ 6 ] < 0 )
+	// q and -q are the same rotation, choose the one closer to the values so far:
+	const precision_type side = m_counter ? m_mean[ 3 ]*tmp[ 3 ] + m_mean[ 4 ]*tmp[ 4 ] + m_mean[ 5 ]*tmp[ 5 ] + m_mean[ 6 ]*tmp[ 6 ] : tmp[ 6 ];
+	if( side < 0 )
 	{
 		tmp[ 3 ] *= (-1);
 		tmp[ 4 ] *= (-1);
 		tmp[ 5 ] *= (-1);
 		tmp[ 6 ] *= (-1);
 	}
+	++m_counter;
 	m_mean += tmp;
 };
 
@@ -256,8 +259,9 @@ public:
 		Util::castToVector( value, tmp );
 		
 		// The order is tx, ty, tz, qx, qy, qz, qw.
-		// check now for real part (==qw) being positive and correct if necessary:
-		if( tmp[ 6 ] < 0 )
+		// q and -q are the same rotation, choose the one closer to the values so far:
+		const precision_type side = m_counter ? m_mean[ 3 ]*tmp[ 3 ] + m_mean[ 4 ]*tmp[ 4 ] + m_mean[ 5 ]*tmp[ 5 ] + m_mean[ 6 ]*tmp[ 6 ] : tmp[ 6 ];
+		if( side < 0 )
 		{
 			tmp[ 3 ] *= (-1);
 			tmp[ 4 ] *= (-1);
-- 
2.43.0


From c43d9638ed6c0ea6af23f06c87c7bdc149ca789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:59 +0000
Subject: [PATCH 050/105] fix: k_means: keep the mean of a cluster without
 values

a cluster that lost all its values got a NaN mean (0/0) and all values were then assigned to the first cluster
---
 src/utMath/Stochastic/k_means.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/k_means.h b/src/utMath/Stochastic/k_means.h
index e08e87e..fc56ee9 100644
--- a/src/utMath/Stochastic/k_means.h
+++ b/src/utMath/Stochastic/k_means.h
@@ -318,7 +318,13 @@ typename std::iterator_traits< OutputIterator >::value_type::value_type k_means(
 		
 		// reset the amount of gathered values for the means, could be done nicer...
 		for( std::size_t k = 0; k<n_cluster; ++k )
-			means_temp[ k ] /= std::count ( indices.begin(), indices.end(), k );
+		{
+			const std::size_t count = std::count ( indices.begin(), indices.end(), k );
+			if( count )
+				means_temp[ k ] /= count;
+			else
+				means_temp[ k ] = *( itMeanBegin + k ); // nothing assigned to this cluster, keep its mean
+		}
 		
 		// calculate the summarized difference
 		std::vector< value_type > norms1;
-- 
2.43.0


From 72e7b4e623a2690030a8c9d27b05b1070345c9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:59 +0000
Subject: [PATCH 051/105] fix: Probability: normalise the density of the
 Gaussian

the normal density was scaled by (2pi)^(-N/4) instead of (2pi)^(-N/2), likelihoods were off
---
 src/utMath/Stochastic/expectation_maximization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/expectation_maximization.h b/src/utMath/Stochastic/expectation_maximization.h
index 02a9245..33a02eb 100644
--- a/src/utMath/Stochastic/expectation_maximization.h
+++ b/src/utMath/Stochastic/expectation_maximization.h
@@ -77,7 +77,7 @@ struct Probability
 			{
 				// UBITRACK_THROW( "Cannot calculate covariance inverse, determinant is NaN or zero." );
 			
-				const value_type tmpconstant = 1 / std::sqrt( std::pow( static_cast< value_type >( 2.0 * 3.14159 ), size * static_cast< value_type >( 0.5 ) ) * std::fabs ( det ) );
+				const value_type tmpconstant = 1 / std::sqrt( std::pow( static_cast< value_type >( 2.0 * 3.14159265358979323846 ), static_cast< value_type >( size ) ) * std::fabs ( det ) );
 				constant = tmpconstant;
 				// if( constant != constant ) //trick to check if the value is valid
 					// UBITRACK_THROW( "Cannot reliable determine constant value of probability density function, it is NaN." );
-- 
2.43.0


From e1a7c1f9f9f31f88f5c0b0ae384da340e566f7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:25 +0000
Subject: [PATCH 052/105] fix: TransformPoint: use the third column in the last
 row of 4x4 matrices

TransformPoint of a 4x4 matrix and a 4-vector used element (3,3) twice in the last row
---
 src/utMath/Geometry/PointTransformation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Geometry/PointTransformation.h b/src/utMath/Geometry/PointTransformation.h
index b02dbf0..7b20288 100644
--- a/src/utMath/Geometry/PointTransformation.h
+++ b/src/utMath/Geometry/PointTransformation.h
@@ -178,7 +178,7 @@ public:
 		const T e1 = transMat( 0, 0 ) * vec( 0 ) + transMat( 0, 1 ) * vec( 1 ) + transMat( 0, 2 ) * vec( 2 ) + transMat( 0, 3 ) * vec( 3 );
 		const T e2 = transMat( 1, 0 ) * vec( 0 ) + transMat( 1, 1 ) * vec( 1 ) + transMat( 1, 2 ) * vec( 2 ) + transMat( 1, 3 ) * vec( 3 );
 		const T e3 = transMat( 2, 0 ) * vec( 0 ) + transMat( 2, 1 ) * vec( 1 ) + transMat( 2, 2 ) * vec( 2 ) + transMat( 2, 3 ) * vec( 3 );
-		const T e4 = transMat( 3, 0 ) * vec( 0 ) + transMat( 3, 1 ) * vec( 1 ) + transMat( 3, 3 ) * vec( 2 ) + transMat( 3, 3 ) * vec( 3 );
+		const T e4 = transMat( 3, 0 ) * vec( 0 ) + transMat( 3, 1 ) * vec( 1 ) + transMat( 3, 2 ) * vec( 2 ) + transMat( 3, 3 ) * vec( 3 );
 		return Math::Vector< T, 4 > ( e1, e2, e3, e4 );
 	}
 };
-- 
2.43.0


From bb8e7db7326c012a05776314b562528b91e0da6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:25 +0000
Subject: [PATCH 053/105] fix: ConicAngle: circles, diagonal ellipses and
 negative multiples

ConicAngle (and with it semi axes and area) was NaN for circles and gave the minor axis for ellipses along a diagonal and negative multiples of an ellipse
---
 src/utMath/Geometry/Conic.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index b5c4a96..452a7bc 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -266,9 +266,13 @@ public:
 		const T a = conic( 0 );
 		const T b = conic( 1 );
 		const T c = conic( 2 );
+		// equal diagonal elements: a circle or an ellipse along a diagonal
+		if( a == c )
+			return b == 0 ? static_cast< T >( 0 ) : static_cast< T >( ( b < 0 ) == ( a > 0 ) ? M_PI_4 : -M_PI_4 );
 		const T angle = std::atan( b  / ( a - c ) ) * static_cast< T > ( 0.5 ); 
 		// return 0.5 * std::atan( ( 2.0 * b ) / ( a - c ) ); 
-		return ( a <= c ? angle : ( static_cast< T > ( M_PI * static_cast< T > ( 0.5 ) ) ) + angle );
+		// a negative multiple of an ellipse swaps the order of the eigenvalues
+		return ( ( a < c ) == ( a + c > 0 ) ? angle : ( static_cast< T > ( M_PI * static_cast< T > ( 0.5 ) ) ) + angle );
 	}
 };
 
-- 
2.43.0


From b4306660e26a7688047f8aa71e633c352ba6fc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:39 +0000
Subject: [PATCH 054/105] fix: ConicCenter: report conics without a centre

ConicCenter tested the reciprocal of the denominator for zero and returned infinite centres for parabolas
---
 src/utMath/Geometry/Conic.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index 452a7bc..57d5cca 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -399,9 +399,10 @@ public:
 		// const T f = conic( 5 );
 	
 		// (b^2)-ac
-		const T divisor = static_cast< T >( 1 ) / ( b*b - a*c );
-		if( divisor == 0 )
+		const T denominator = b*b - a*c;
+		if( denominator == 0 )
 			UBITRACK_THROW( "Could not calculate the center, divisor equals zero" );
+		const T divisor = static_cast< T >( 1 ) / denominator;
 		// c*d-b*e / divisor
 		const T x = ( c*d - b*e ) * divisor;
 		// a*e-b*d / divisor
-- 
2.43.0


From 5bef5cd7d64091813f53734be5cd439417dd278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:39 +0000
Subject: [PATCH 055/105] fix: ConicEccentricity: use the full mixed
 coefficient

ConicEccentricity halved the xy coefficient and gave wrong eccentricities for rotated conics
---
 src/utMath/Geometry/Conic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index 57d5cca..6a0a8f2 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -443,7 +443,7 @@ public:
 	T operator() ( const Math::Vector< T, 6 > &conic ) const
 	{
 		const T a = conic( 0 );
-		const T b = conic( 1 ) * static_cast< T > ( 0.5 );
+		const T b = conic( 1 );
 		const T c = conic( 2 );
 		// const T d = conic( 3 ) * static_cast< T > ( 0.5 );
 		// const T e = conic( 4 ) * static_cast< T > ( 0.5 );
-- 
2.43.0


From b854708157999a00475d2843eb72f9de0aa5ef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:18 +0000
Subject: [PATCH 056/105] fix: StringUtil: format long messages from a copy of
 the arguments

printf style messages of 1024 characters and more were formatted from a va_list that was already consumed (garbage or crash)
---
 3rd/log4cpp/src/StringUtil.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/StringUtil.cpp b/3rd/log4cpp/src/StringUtil.cpp
index e30890a..d00300c 100644
--- a/3rd/log4cpp/src/StringUtil.cpp
+++ b/3rd/log4cpp/src/StringUtil.cpp
@@ -39,7 +39,11 @@ namespace log4cpp {
 	char* buffer = new char[size];
             
 	while (1) {
-	    int n = VSNPRINTF(buffer, size, format, args);
+	    // the list is consumed by each attempt
+	    va_list attempt;
+	    va_copy(attempt, args);
+	    int n = VSNPRINTF(buffer, size, format, attempt);
+	    va_end(attempt);
                 
 	    // If that worked, return a string.
 	    if ((n > -1) && (static_cast<size_t>(n) < size)) {
-- 
2.43.0


From 95c144642d6ba7dc01916c6357a72859071a0fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:18 +0000
Subject: [PATCH 057/105] fix: CategoryStream: manipulators of empty and
 disabled streams

eol, left and width of a stream without text or below the priority of the category dereferenced a null pointer
---
 3rd/log4cpp/src/CategoryStream.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/3rd/log4cpp/src/CategoryStream.cpp b/3rd/log4cpp/src/CategoryStream.cpp
index a01f9ab..6cf7166 100644
--- a/3rd/log4cpp/src/CategoryStream.cpp
+++ b/3rd/log4cpp/src/CategoryStream.cpp
@@ -48,19 +48,22 @@ namespace log4cpp {
                 }
             }
         }
-        return _buffer->width(wide); 
+        return _buffer ? _buffer->width(wide) : 0; 
     }
     CategoryStream& CategoryStream::operator<< (cspf pf) {
 		return (*pf)(*this);
     }
     CategoryStream& eol (CategoryStream& os) {
-        if  (os._buffer->good()) {
+        if  (os._buffer && os._buffer->good()) {
 			os.flush();
         }
         return os;
     }
     CategoryStream& left (CategoryStream& os) {
-        if  (os._buffer->good()) {
+        if  (!os._buffer && os.getPriority() != Priority::NOTSET) {
+            os._buffer = new std::ostringstream;
+        }
+        if  (os._buffer && os._buffer->good()) {
             os._buffer->setf(std::ios::left);
         }
         return os;
-- 
2.43.0


From ee8f9ae6bdb336a41cb8c47d33ed7f78642601b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:18 +0000
Subject: [PATCH 058/105] fix: NDC: pop of an empty context returns an empty
 string

NDC::pop without a context read before the start of the stack instead of returning the documented empty string
---
 3rd/log4cpp/src/NDC.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/3rd/log4cpp/src/NDC.cpp b/3rd/log4cpp/src/NDC.cpp
index 9d1a35c..3cd4f15 100644
--- a/3rd/log4cpp/src/NDC.cpp
+++ b/3rd/log4cpp/src/NDC.cpp
@@ -100,6 +100,9 @@ namespace log4cpp {
     }
 
     std::string NDC::_pop() {
+        if (_stack.empty()) {
+            return "";
+        }
         std::string result = _stack.back().message;
         _stack.pop_back();
         return result;
-- 
2.43.0


From cbb9417ab1d896e16818652fde1c132d4f04bf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:22 +0000
Subject: [PATCH 059/105] fix: Category: change priorities of the hierarchy
 under one lock

priority changes raced with each other, with logging and with the creation of categories: data races and inherited priorities that stayed stale
---
 3rd/log4cpp/include/log4cpp/Category.hh | 15 ++++++++-------
 3rd/log4cpp/src/Category.cpp            | 22 ++++++++++++++++++----
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/3rd/log4cpp/include/log4cpp/Category.hh b/3rd/log4cpp/include/log4cpp/Category.hh
index 1c60a00..b1bdeaa 100644
--- a/3rd/log4cpp/include/log4cpp/Category.hh
+++ b/3rd/log4cpp/include/log4cpp/Category.hh
@@ -22,6 +22,7 @@
 #include <log4cpp/CategoryStream.hh>
 #include <log4cpp/threading/Threading.hh>
 
+#include <atomic>
 #include <map>
 #include <vector>
 #include <cstdarg>
@@ -674,12 +675,14 @@ namespace log4cpp {
 										  unsigned line=0) throw();
 
 		/**
-		 * Add a category to the list of children
+		 * Add a category to the list of children. The caller holds the lock
+		 * of the hierarchy.
 		 */
 		void _addChild(Category* child) throw();
 
 		/**
-		 * Propagate a change in the parent priority.
+		 * Propagate a change in the parent priority. The caller holds the lock
+		 * of the hierarchy.
 		 */
 		void _updateChainedPriority(Priority::Value priority) throw();
 										 
@@ -699,8 +702,6 @@ namespace log4cpp {
         Category* _parent;
 
 		typedef std::vector< Category* > ChildrenList;
-	    mutable threading::Mutex _childrenListMutex;
-	
 		/**
 		 * The list of all children in the hierarchy.
 		 */
@@ -709,12 +710,12 @@ namespace log4cpp {
         /**
          *  The assigned priority of this category. 
          **/
-        volatile Priority::Value _priority;
+        std::atomic<Priority::Value> _priority;
 		
 		/**
 		 * The effective priority as determined by the hierarchy.
 		 */
-        volatile Priority::Value _chainedPriority;
+        std::atomic<Priority::Value> _chainedPriority;
 		
 
         typedef std::map<Appender *, bool> OwnsAppenderMap;
@@ -742,7 +743,7 @@ namespace log4cpp {
          * Additivity is set to true by default, i.e. a child inherits its
          * ancestor's appenders by default. 
          */
-        volatile bool _isAdditive;
+        std::atomic<bool> _isAdditive;
 
     };
 
diff --git a/3rd/log4cpp/src/Category.cpp b/3rd/log4cpp/src/Category.cpp
index bdf9d56..b08d4d6 100644
--- a/3rd/log4cpp/src/Category.cpp
+++ b/3rd/log4cpp/src/Category.cpp
@@ -20,6 +20,18 @@
 
 namespace log4cpp {
 
+    namespace {
+        /** 
+         * Protects the children and the inherited priorities of all categories:
+         * a change and its propagation must not interleave with another change
+         * or with the creation of a category.
+         **/
+        threading::Mutex& hierarchyMutex() {
+            static threading::Mutex* mutex = new threading::Mutex();
+            return *mutex;
+        }
+    }
+
     Category& Category::getRoot() {
         return getInstance("");
     }
@@ -56,6 +68,7 @@ namespace log4cpp {
 		_chainedPriority(priority),
         _isAdditive(true) {
 		if (parent != NULL) {
+			threading::ScopedLock lock(hierarchyMutex());
 			if (_chainedPriority == Priority::NOTSET)
 				_chainedPriority = parent->getChainedPriority();
 			parent->_addChild( this );
@@ -68,8 +81,12 @@ namespace log4cpp {
 
     void Category::setPriority(Priority::Value priority)
     throw(std::invalid_argument) {
+		threading::ScopedLock lock(hierarchyMutex());
         if (priority < Priority::NOTSET) 
-            _priority = _chainedPriority = priority;
+        {
+            _priority = priority;
+            _chainedPriority = priority;
+        }
 		else
 			if (getParent() != NULL) {
 				_priority = priority;
@@ -81,7 +98,6 @@ namespace log4cpp {
 	            throw std::invalid_argument("cannot set priority NOTSET on Root Category");
 	        }
 		/* update children */
-		threading::ScopedLock lock(_childrenListMutex);
 		for (ChildrenList::iterator it=_children.begin(); it!=_children.end(); it++)
 			(*it)->_updateChainedPriority(_chainedPriority);
     }
@@ -90,7 +106,6 @@ namespace log4cpp {
 		if(getPriority() == Priority::NOTSET) {
 			_chainedPriority = priority;
 			/* update children */
-			threading::ScopedLock lock(_childrenListMutex);
 			for (ChildrenList::iterator it=_children.begin(); it!=_children.end(); it++)
 				(*it)->_updateChainedPriority(_chainedPriority);
 		}
@@ -246,7 +261,6 @@ namespace log4cpp {
     }
 
 	void Category::_addChild(Category* child) throw() {
-		threading::ScopedLock lock(_childrenListMutex);
 		_children.push_back(child);
 	}
 	
-- 
2.43.0


From 7c01f212893dfc96d1db6659092d052e19919b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:09 +0000
Subject: [PATCH 060/105] fix: FixedContextCategory: leave the hierarchy on
 destruction

setting the priority of the parent of a destroyed FixedContextCategory wrote into freed memory
---
 3rd/log4cpp/include/log4cpp/Category.hh  | 5 +++++
 3rd/log4cpp/src/Category.cpp             | 9 +++++++++
 3rd/log4cpp/src/FixedContextCategory.cpp | 2 ++
 3 files changed, 16 insertions(+)

diff --git a/3rd/log4cpp/include/log4cpp/Category.hh b/3rd/log4cpp/include/log4cpp/Category.hh
index b1bdeaa..c231fbc 100644
--- a/3rd/log4cpp/include/log4cpp/Category.hh
+++ b/3rd/log4cpp/include/log4cpp/Category.hh
@@ -680,6 +680,11 @@ namespace log4cpp {
 		 */
 		void _addChild(Category* child) throw();
 
+		/**
+		 * Remove a category from the list of children of its parent.
+		 */
+		void _removeFromParent() throw();
+
 		/**
 		 * Propagate a change in the parent priority. The caller holds the lock
 		 * of the hierarchy.
diff --git a/3rd/log4cpp/src/Category.cpp b/3rd/log4cpp/src/Category.cpp
index b08d4d6..11b82cf 100644
--- a/3rd/log4cpp/src/Category.cpp
+++ b/3rd/log4cpp/src/Category.cpp
@@ -17,6 +17,7 @@
 #include <log4cpp/HierarchyMaintainer.hh>
 #include <log4cpp/NDC.hh>
 #include "StringUtil.hh"
+#include <algorithm>
 
 namespace log4cpp {
 
@@ -263,6 +264,14 @@ namespace log4cpp {
 	void Category::_addChild(Category* child) throw() {
 		_children.push_back(child);
 	}
+
+	void Category::_removeFromParent() throw() {
+		if (_parent != NULL) {
+			threading::ScopedLock lock(hierarchyMutex());
+			ChildrenList& siblings = _parent->_children;
+			siblings.erase(std::remove(siblings.begin(), siblings.end(), this), siblings.end());
+		}
+	}
 	
     void Category::_logUnconditionally(Priority::Value priority, 
                                        const char* format, 
diff --git a/3rd/log4cpp/src/FixedContextCategory.cpp b/3rd/log4cpp/src/FixedContextCategory.cpp
index f447150..76b3692 100644
--- a/3rd/log4cpp/src/FixedContextCategory.cpp
+++ b/3rd/log4cpp/src/FixedContextCategory.cpp
@@ -20,6 +20,8 @@ namespace log4cpp {
     }
 
     FixedContextCategory::~FixedContextCategory() {
+        // unlike named categories it does not live as long as its parent
+        _removeFromParent();
     }
 
     void FixedContextCategory::setContext(const std::string& context) {
-- 
2.43.0


From baf4e3c0cf04cc505dc08e5cc2c785978b3026ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:03 +0000
Subject: [PATCH 061/105] fix: Appenders: one lock per appender

an appender shared by two categories, or closed, reopened, drained or reconfigured while other threads log, raced: torn records, use of a freed layout, writes to a closed descriptor
---
 3rd/log4cpp/include/log4cpp/AppenderSkeleton.hh | 10 ++++++++++
 3rd/log4cpp/src/AppenderSkeleton.cpp            |  5 +++++
 3rd/log4cpp/src/FileAppender.cpp                |  6 ++++++
 3rd/log4cpp/src/LayoutAppender.cpp              |  1 +
 3rd/log4cpp/src/RemoteSyslogAppender.cpp        |  2 ++
 3rd/log4cpp/src/RollingFileAppender.cpp         |  5 +++++
 3rd/log4cpp/src/StringQueueAppender.cpp         |  2 ++
 3rd/log4cpp/src/SyslogAppender.cpp              |  1 +
 8 files changed, 32 insertions(+)

diff --git a/3rd/log4cpp/include/log4cpp/AppenderSkeleton.hh b/3rd/log4cpp/include/log4cpp/AppenderSkeleton.hh
index fa22190..5d48a68 100644
--- a/3rd/log4cpp/include/log4cpp/AppenderSkeleton.hh
+++ b/3rd/log4cpp/include/log4cpp/AppenderSkeleton.hh
@@ -13,6 +13,7 @@
 #include <log4cpp/Portability.hh>
 #include <log4cpp/Appender.hh>
 #include <log4cpp/Filter.hh>
+#include <mutex>
 
 namespace log4cpp {
 
@@ -101,6 +102,15 @@ namespace log4cpp {
          **/
         virtual void _append(const LoggingEvent& event) = 0;
 
+        /**
+         * Held while a record is appended and while the state used for that
+         * is changed: an appender may be shared by several categories, and may
+         * be closed, reopened or reconfigured while other threads log.
+         * Subclasses lock it in their methods other than _append.
+         **/
+        typedef std::lock_guard<std::recursive_mutex> AppenderLock;
+        mutable std::recursive_mutex _appenderMutex;
+
         
         private:
         Priority::Value _threshold;
diff --git a/3rd/log4cpp/src/AppenderSkeleton.cpp b/3rd/log4cpp/src/AppenderSkeleton.cpp
index 51bab5f..f1ee2fc 100644
--- a/3rd/log4cpp/src/AppenderSkeleton.cpp
+++ b/3rd/log4cpp/src/AppenderSkeleton.cpp
@@ -28,6 +28,7 @@ namespace log4cpp {
     }
     
     void AppenderSkeleton::doAppend(const LoggingEvent& event) {
+        AppenderLock lock(_appenderMutex);
         if ((Priority::NOTSET == _threshold) || (event.priority <= _threshold)) {
             if (!_filter || (_filter->decide(event) != Filter::DENY)) {
                 _append(event);
@@ -36,14 +37,17 @@ namespace log4cpp {
     }
 
     void AppenderSkeleton::setThreshold(Priority::Value priority) {
+        AppenderLock lock(_appenderMutex);
         _threshold = priority;
     }
     
     Priority::Value AppenderSkeleton::getThreshold() {
+        AppenderLock lock(_appenderMutex);
         return _threshold;
     }
     
     void AppenderSkeleton::setFilter(Filter* filter) {
+        AppenderLock lock(_appenderMutex);
         if (_filter != filter) {
             if (_filter)
                 delete _filter;
@@ -53,6 +57,7 @@ namespace log4cpp {
     }
     
     Filter* AppenderSkeleton::getFilter() {
+        AppenderLock lock(_appenderMutex);
         return _filter;
     }
     
diff --git a/3rd/log4cpp/src/FileAppender.cpp b/3rd/log4cpp/src/FileAppender.cpp
index 7c8a67b..7a049fd 100644
--- a/3rd/log4cpp/src/FileAppender.cpp
+++ b/3rd/log4cpp/src/FileAppender.cpp
@@ -48,6 +48,7 @@ namespace log4cpp {
     }
 
     void FileAppender::close() {
+        AppenderLock lock(_appenderMutex);
         if (_fd!=-1) {
             ::close(_fd);
             _fd=-1;
@@ -55,6 +56,7 @@ namespace log4cpp {
     }
 
     void FileAppender::setAppend(bool append) {
+        AppenderLock lock(_appenderMutex);
         if (append) {
             _flags &= ~O_TRUNC;
         } else {
@@ -63,14 +65,17 @@ namespace log4cpp {
     }
 
     bool FileAppender::getAppend() const {
+        AppenderLock lock(_appenderMutex);
         return (_flags & O_TRUNC) == 0;
     }
 
     void FileAppender::setMode(mode_t mode) {
+        AppenderLock lock(_appenderMutex);
         _mode = mode;
     }
 
     mode_t FileAppender::getMode() const {
+        AppenderLock lock(_appenderMutex);
         return _mode;
     }
 
@@ -82,6 +87,7 @@ namespace log4cpp {
     }
 
     bool FileAppender::reopen() {
+        AppenderLock lock(_appenderMutex);
         if (_fileName != "") {
             int fd = ::open(_fileName.c_str(), _flags, _mode);
             if (fd < 0)
diff --git a/3rd/log4cpp/src/LayoutAppender.cpp b/3rd/log4cpp/src/LayoutAppender.cpp
index 5d2f3ba..50323a1 100644
--- a/3rd/log4cpp/src/LayoutAppender.cpp
+++ b/3rd/log4cpp/src/LayoutAppender.cpp
@@ -26,6 +26,7 @@ namespace log4cpp {
     }
 
     void LayoutAppender::setLayout(Layout* layout) {
+       AppenderLock lock(_appenderMutex);
        if (layout != _layout) {
 	  Layout *oldLayout = _layout;
 	  _layout = (layout == NULL) ? new DefaultLayoutType() : layout;
diff --git a/3rd/log4cpp/src/RemoteSyslogAppender.cpp b/3rd/log4cpp/src/RemoteSyslogAppender.cpp
index fff7723..57b45ef 100644
--- a/3rd/log4cpp/src/RemoteSyslogAppender.cpp
+++ b/3rd/log4cpp/src/RemoteSyslogAppender.cpp
@@ -119,6 +119,7 @@ namespace log4cpp {
     }
 
     void RemoteSyslogAppender::close() {
+        AppenderLock lock(_appenderMutex);
 	if (_socket) {
 #ifdef WIN32
 	    closesocket (_socket);
@@ -161,6 +162,7 @@ namespace log4cpp {
     }
 
     bool RemoteSyslogAppender::reopen() {
+        AppenderLock lock(_appenderMutex);
         close();
         open();
         return true;
diff --git a/3rd/log4cpp/src/RollingFileAppender.cpp b/3rd/log4cpp/src/RollingFileAppender.cpp
index 2582500..f8c6bd2 100644
--- a/3rd/log4cpp/src/RollingFileAppender.cpp
+++ b/3rd/log4cpp/src/RollingFileAppender.cpp
@@ -35,22 +35,27 @@ namespace log4cpp {
     }
 
     void RollingFileAppender::setMaxBackupIndex(unsigned int maxBackups) { 
+        AppenderLock lock(_appenderMutex);
         _maxBackupIndex = maxBackups; 
     }
     
     unsigned int RollingFileAppender::getMaxBackupIndex() const { 
+        AppenderLock lock(_appenderMutex);
         return _maxBackupIndex; 
     }
 
     void RollingFileAppender::setMaximumFileSize(size_t maxFileSize) {
+        AppenderLock lock(_appenderMutex);
         _maxFileSize = maxFileSize;
     }
 
     size_t RollingFileAppender::getMaxFileSize() const { 
+        AppenderLock lock(_appenderMutex);
         return _maxFileSize; 
     }
 
     void RollingFileAppender::rollOver() {
+        AppenderLock lock(_appenderMutex);
         ::close(_fd);
         if (_maxBackupIndex > 0) {
             std::ostringstream oldName;
diff --git a/3rd/log4cpp/src/StringQueueAppender.cpp b/3rd/log4cpp/src/StringQueueAppender.cpp
index 48593ee..8fe7aa3 100644
--- a/3rd/log4cpp/src/StringQueueAppender.cpp
+++ b/3rd/log4cpp/src/StringQueueAppender.cpp
@@ -41,10 +41,12 @@ namespace log4cpp {
     }
 
     size_t StringQueueAppender::queueSize() const {
+        AppenderLock lock(_appenderMutex);
         return getQueue().size();
     }
 
     std::string StringQueueAppender::popMessage() {        
+        AppenderLock lock(_appenderMutex);
         std::string message;
 
         if (!_queue.empty()) {
diff --git a/3rd/log4cpp/src/SyslogAppender.cpp b/3rd/log4cpp/src/SyslogAppender.cpp
index cdf19ad..d9de2a0 100644
--- a/3rd/log4cpp/src/SyslogAppender.cpp
+++ b/3rd/log4cpp/src/SyslogAppender.cpp
@@ -68,6 +68,7 @@ namespace log4cpp {
     }
 
     bool SyslogAppender::reopen() {
+        AppenderLock lock(_appenderMutex);
         close();
         open();
         return true;
-- 
2.43.0


From eea0011236881a02f8fc76e4800fab847ccc7bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:03 +0000
Subject: [PATCH 062/105] fix: Appender::reopenAll: go on after a failure

reopenAll left all appenders after the first failing one unopened
---
 3rd/log4cpp/src/Appender.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/Appender.cpp b/3rd/log4cpp/src/Appender.cpp
index 3f488a3..4b82d53 100644
--- a/3rd/log4cpp/src/Appender.cpp
+++ b/3rd/log4cpp/src/Appender.cpp
@@ -45,7 +45,7 @@ namespace log4cpp {
         bool result = true;
         AppenderMap& allAppenders = _getAllAppenders();
         for(AppenderMap::iterator i = allAppenders.begin(); i != allAppenders.end(); i++) {
-            result = result && ((*i).second)->reopen();
+            result = ((*i).second)->reopen() && result;
         }
         
         return result;
-- 
2.43.0


From 9ef2977eebe8fd1efe65e6f9b1d1098580595c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:03 +0000
Subject: [PATCH 063/105] fix: Appender: unregister only itself

destroying an appender whose name was taken over by a later one removed the later one from the registry: closeAll and reopenAll missed it
---
 3rd/log4cpp/src/Appender.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/Appender.cpp b/3rd/log4cpp/src/Appender.cpp
index 4b82d53..3010223 100644
--- a/3rd/log4cpp/src/Appender.cpp
+++ b/3rd/log4cpp/src/Appender.cpp
@@ -37,7 +37,11 @@ namespace log4cpp {
 
     void Appender::_removeAppender(Appender* appender) {
         threading::ScopedLock lock(_appenderMapMutex);
-        _getAllAppenders().erase(appender->getName());
+        AppenderMap& allAppenders = _getAllAppenders();
+        AppenderMap::iterator i = allAppenders.find(appender->getName());
+        // a later appender of the same name may have taken the place
+        if (i != allAppenders.end() && (*i).second == appender)
+            allAppenders.erase(i);
     }
     
     bool Appender::reopenAll() {
-- 
2.43.0


From 66f90a7e9561412b06da3726f7602569a0f3b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:04 +0000
Subject: [PATCH 064/105] fix: Category::getAppender: only appenders of the
 category

getAppender(name) returned appenders of other categories instead of NULL
---
 3rd/log4cpp/src/Category.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/3rd/log4cpp/src/Category.cpp b/3rd/log4cpp/src/Category.cpp
index 11b82cf..5a07139 100644
--- a/3rd/log4cpp/src/Category.cpp
+++ b/3rd/log4cpp/src/Category.cpp
@@ -151,14 +151,12 @@ namespace log4cpp {
     Appender* Category::getAppender(const std::string& name) const {
         threading::ScopedLock lock(_appenderSetMutex);
         {
-            AppenderSet::const_iterator i = _appender.begin();
-            if (_appender.end() != i) {
-                // found
-                return((*i)->getAppender(name));
-            }
-            else {
-                return(NULL);
+            for (AppenderSet::const_iterator i = _appender.begin();
+                 i != _appender.end(); i++) {
+                if ((*i)->getName() == name)
+                    return *i;
             }
+            return NULL;
         }
     }
 
-- 
2.43.0


From cfeed8e3ed6fbc027acea776b3bcb66d83f098b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:05 +0000
Subject: [PATCH 065/105] fix: RemoteSyslogAppender: use the whole address

only the first byte of the address of the relay was used: every record was lost
---
 3rd/log4cpp/src/RemoteSyslogAppender.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/RemoteSyslogAppender.cpp b/3rd/log4cpp/src/RemoteSyslogAppender.cpp
index 57b45ef..69bb7df 100644
--- a/3rd/log4cpp/src/RemoteSyslogAppender.cpp
+++ b/3rd/log4cpp/src/RemoteSyslogAppender.cpp
@@ -108,7 +108,7 @@ namespace log4cpp {
                     return; // fail silently                    
                 }
             }
-	    _ipAddr = *(pent->h_addr);
+	    std::memcpy (&_ipAddr, pent->h_addr, sizeof (_ipAddr));
 	}
 	// Get a datagram socket.
 	
-- 
2.43.0


From 010324bf34d1db28530cd18a1b1680ef347d506f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:53 +0000
Subject: [PATCH 066/105] fix: PatternLayout: use localtime_r

several appenders formatting the time at once wrote to the same static buffer: data race, wrong times
---
 3rd/log4cpp/src/PatternLayout.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/3rd/log4cpp/src/PatternLayout.cpp b/3rd/log4cpp/src/PatternLayout.cpp
index 8f5db7f..4a5904a 100644
--- a/3rd/log4cpp/src/PatternLayout.cpp
+++ b/3rd/log4cpp/src/PatternLayout.cpp
@@ -172,9 +172,15 @@ namespace log4cpp {
         }
 
         virtual void append(std::ostringstream& out, const LoggingEvent& event) {
-            struct tm *currentTime;
+            struct tm currentTime = tm();
             time_t t = event.timeStamp.getSeconds();
-            currentTime = std::localtime(&t);
+#ifdef WIN32
+            // returns a buffer of the calling thread
+            if (struct tm* local = std::localtime(&t))
+                currentTime = *local;
+#else
+            ::localtime_r(&t, &currentTime);
+#endif
             char formatted[100];
             std::string timeFormat;
             if (_printMillis) {
@@ -187,7 +193,7 @@ namespace log4cpp {
             } else {
                 timeFormat = _timeFormat1;
             }
-            std::strftime(formatted, sizeof(formatted), timeFormat.c_str(), currentTime);
+            std::strftime(formatted, sizeof(formatted), timeFormat.c_str(), &currentTime);
             out << formatted;
         }
 
-- 
2.43.0


From ffaff43cdc8a3d45ec7eedebd49fcfff41c1277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:53 +0000
Subject: [PATCH 067/105] fix: PatternLayout: allow long times

a time format of 100 or more characters printed uninitialised memory
---
 3rd/log4cpp/src/PatternLayout.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/3rd/log4cpp/src/PatternLayout.cpp b/3rd/log4cpp/src/PatternLayout.cpp
index 4a5904a..4ef210f 100644
--- a/3rd/log4cpp/src/PatternLayout.cpp
+++ b/3rd/log4cpp/src/PatternLayout.cpp
@@ -23,6 +23,7 @@
 #include <ctime>
 #include <cmath>
 #include <algorithm>
+#include <vector>
 
 #ifdef LOG4CPP_HAVE_INT64_T
 #ifdef LOG4CPP_HAVE_STDINT_H
@@ -181,7 +182,6 @@ namespace log4cpp {
 #else
             ::localtime_r(&t, &currentTime);
 #endif
-            char formatted[100];
             std::string timeFormat;
             if (_printMillis) {
                 std::ostringstream formatStream;
@@ -193,8 +193,12 @@ namespace log4cpp {
             } else {
                 timeFormat = _timeFormat1;
             }
-            std::strftime(formatted, sizeof(formatted), timeFormat.c_str(), &currentTime);
-            out << formatted;
+            // the leading space tells an empty result from a buffer too small
+            timeFormat.insert(0, " ");
+            std::vector<char> formatted(128);
+            while (std::strftime(&formatted[0], formatted.size(), timeFormat.c_str(), &currentTime) == 0)
+                formatted.resize(2 * formatted.size());
+            out << (&formatted[0] + 1);
         }
 
         private:
-- 
2.43.0


From 56ecba7e5660fe4b971edeb97763f085c9c917fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:54 +0000
Subject: [PATCH 068/105] fix: PatternLayout: reject bad precisions of %c

%c{0} and %c{abc} were accepted and ended the process when the first record was logged
---
 3rd/log4cpp/src/PatternLayout.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/PatternLayout.cpp b/3rd/log4cpp/src/PatternLayout.cpp
index 4ef210f..0a2bb55 100644
--- a/3rd/log4cpp/src/PatternLayout.cpp
+++ b/3rd/log4cpp/src/PatternLayout.cpp
@@ -70,7 +70,8 @@ namespace log4cpp {
 #else
                 std::istrstream s(specifier.c_str());
 #endif
-                s >> _precision;
+                if (!(s >> _precision) || _precision <= 0)
+                    throw ConfigureFailure("invalid precision '" + specifier + "' of the category name");
             }
         }
 
-- 
2.43.0


From a6060a26b2394628a5ba71c476b24001cc7ff943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:54 +0000
Subject: [PATCH 069/105] fix: PatternLayout: keep the old pattern when the new
 one is invalid

a rejected pattern left part of itself in force instead of the old pattern; a final % read an uninitialised variable
---
 3rd/log4cpp/src/PatternLayout.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/3rd/log4cpp/src/PatternLayout.cpp b/3rd/log4cpp/src/PatternLayout.cpp
index 0a2bb55..a48d659 100644
--- a/3rd/log4cpp/src/PatternLayout.cpp
+++ b/3rd/log4cpp/src/PatternLayout.cpp
@@ -305,6 +305,17 @@ namespace log4cpp {
         _conversionPattern = "";
     }
 
+    namespace {
+        /** deletes the components it still holds **/
+        struct ComponentGuard {
+            std::vector<PatternLayout::PatternComponent*> _components;
+            ~ComponentGuard() {
+                for(size_t i = 0; i < _components.size(); ++i)
+                    delete _components[i];
+            }
+        };
+    }
+
     void PatternLayout::setConversionPattern(const std::string& conversionPattern) throw(ConfigureFailure) {
 #ifdef LOG4CPP_HAVE_SSTREAM 
         std::istringstream conversionStream(conversionPattern);
@@ -317,12 +328,14 @@ namespace log4cpp {
         PatternLayout::PatternComponent* component = NULL;
         int minWidth = 0;
         size_t maxWidth = 0;
-        clearConversionPattern();
+        // replaces the current pattern only when all of it is valid
+        ComponentGuard parsed;
+        ComponentVector& components = parsed._components;
         while (conversionStream.get(ch)) {
             if (ch == '%') {
                 // readPrefix;
                 {
-                    char ch2;
+                    char ch2 = 0;
                     conversionStream.get(ch2);
                     if ((ch2 == '-') || ((ch2 >= '0') && (ch2 <= '9'))) {
                         conversionStream.putback(ch2);
@@ -407,14 +420,14 @@ namespace log4cpp {
                 }
                 if (component) {
                     if (!literal.empty()) {
-                        _components.push_back(new StringLiteralComponent(literal));
+                        components.push_back(new StringLiteralComponent(literal));
                         literal = "";
                     }
                     if ((minWidth != 0) || (maxWidth != 0)) {
                         component = new FormatModifierComponent(component, std::abs(minWidth), maxWidth, minWidth < 0);
                         minWidth = maxWidth = 0;
                     }
-                    _components.push_back(component);
+                    components.push_back(component);
                     component = NULL;
                 }
             } else {
@@ -422,9 +435,11 @@ namespace log4cpp {
             }
         }
         if (!literal.empty()) {
-            _components.push_back(new StringLiteralComponent(literal));
+            components.push_back(new StringLiteralComponent(literal));
         }
 
+        clearConversionPattern();
+        _components.swap(components);
         _conversionPattern = conversionPattern;
     }
 
-- 
2.43.0


From c96b0d90d35d3900cb827a4596e627c9fc3f90cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:33 +0000
Subject: [PATCH 070/105] fix: Properties: read lines of any length

a line of 255 or more characters ended the reading of a property file without an error
---
 3rd/log4cpp/src/Properties.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/3rd/log4cpp/src/Properties.cpp b/3rd/log4cpp/src/Properties.cpp
index e27c2cb..94e3297 100644
--- a/3rd/log4cpp/src/Properties.cpp
+++ b/3rd/log4cpp/src/Properties.cpp
@@ -23,12 +23,9 @@ namespace log4cpp {
 
         std::string fullLine, command;
         std::string leftSide, rightSide;
-        char line[256];
         std::string::size_type length;
 
-        while (in.getline(line, 256)) {
-            fullLine = line;
-
+        while (std::getline(in, fullLine)) {
             /* if the line contains a # then it is a comment
                if we find it anywhere other than the beginning, then we assume 
                there is a command on that line, and it we don't find it at all
-- 
2.43.0


From 6e51444d73bf9419f7e30485bda197def195aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:34 +0000
Subject: [PATCH 071/105] fix: PropertyConfigurator: accept appender names like
 A and A-B

appenders A and A-B in one file were rejected as a partial definition
---
 3rd/log4cpp/src/PropertyConfiguratorImpl.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
index 90d0815..4014bb6 100644
--- a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
+++ b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
@@ -90,8 +90,6 @@ namespace log4cpp {
     }
 
     void PropertyConfiguratorImpl::instantiateAllAppenders() throw(ConfigureFailure) {
-        std::string currentAppender;
-
         std::string prefix("appender");
         Properties::const_iterator from = _properties.lower_bound(prefix + '.');
         Properties::const_iterator to = _properties.lower_bound(prefix + '/');
@@ -113,14 +111,14 @@ namespace log4cpp {
                skipping of the Appenders properties only to get them 
                again in instantiateAppender.
             */
-            if (appenderName == currentAppender) {
-                // simply skip properties for the current appender
+            if (_allAppenders.find(appenderName) != _allAppenders.end()) {
+                // simply skip properties of the appenders already defined
+                // (those of A come after A-B, which comes after A)
             } else {
                 if (i2 == iEnd) {
                     // a new appender
-                    currentAppender = appenderName;
-                    _allAppenders[currentAppender] = 
-                        instantiateAppender(currentAppender);
+                    _allAppenders[appenderName] = 
+                        instantiateAppender(appenderName);
                 } else {
                     throw ConfigureFailure(std::string("partial appender definition : ") + key);
                 }
-- 
2.43.0


From 554d9c1ea56004182c2d935056dbd7e00c2c53c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:34 +0000
Subject: [PATCH 072/105] fix: Priority: an empty name is no priority

getPriorityValue("") returned 0 (EMERG) instead of throwing
---
 3rd/log4cpp/src/Priority.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/Priority.cpp b/3rd/log4cpp/src/Priority.cpp
index a3f6d59..91ffcbc 100644
--- a/3rd/log4cpp/src/Priority.cpp
+++ b/3rd/log4cpp/src/Priority.cpp
@@ -45,7 +45,7 @@ namespace log4cpp {
 
 		char* endPointer;
 		Priority::Value value = std::strtoul(priorityName.c_str(), &endPointer, 10);
-		if (*endPointer != 0) {
+		if (priorityName.empty() || *endPointer != 0) {
 			throw std::invalid_argument(
 				std::string("unknown priority name: '") + priorityName + "'"
 			);
-- 
2.43.0


From 3589d3865c3b4ef8ac8d3c4fac231ed6cf0eb6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:35 +0000
Subject: [PATCH 073/105] fix: PropertyConfigurator: report a root category
 without priority

rootCategory without a priority (or NOTSET) ended the process by an exception the specification does not allow
---
 3rd/log4cpp/src/PropertyConfiguratorImpl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
index 4014bb6..315a66d 100644
--- a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
+++ b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
@@ -160,7 +160,12 @@ namespace log4cpp {
             }
         }
 
-        category.setPriority(priority);
+        try {
+            category.setPriority(priority);
+        } catch(std::invalid_argument& e) {
+            throw ConfigureFailure(std::string(e.what()) + 
+                " for category '" + categoryName + "'");
+        }
 
         bool additive = _properties.getBool("additivity." + categoryName, true);
         category.setAdditivity(additive);
-- 
2.43.0


From 850794bc0100a6e22ef55141d13b09d3da6071a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:36 +0000
Subject: [PATCH 074/105] fix: PropertyConfigurator: default facility of syslog
 appenders

without a facility records were sent as <-2>, <-5>, ... which no syslog accepts
---
 3rd/log4cpp/src/PropertyConfiguratorImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
index 315a66d..9fd4386 100644
--- a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
+++ b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
@@ -220,7 +220,7 @@ namespace log4cpp {
         else if (appenderType == "SyslogAppender") {
             std::string syslogName = _properties.getString(appenderPrefix + ".syslogName", "syslog");
             std::string syslogHost = _properties.getString(appenderPrefix + ".syslogHost", "localhost");
-            int facility = _properties.getInt(appenderPrefix + ".facility", -1) * 8; // * 8 to get LOG_KERN, etc. compatible values. 
+            int facility = _properties.getInt(appenderPrefix + ".facility", LOG_USER / 8) * 8; // * 8 to get LOG_KERN, etc. compatible values. 
             int portNumber = _properties.getInt(appenderPrefix + ".portNumber", -1);
             appender = new RemoteSyslogAppender(appenderName, syslogName, 
                                                 syslogHost, facility, portNumber);
@@ -228,7 +228,7 @@ namespace log4cpp {
 #ifdef LOG4CPP_HAVE_SYSLOG
         else if (appenderType == "LocalSyslogAppender") {
             std::string syslogName = _properties.getString(appenderPrefix + ".syslogName", "syslog");
-            int facility = _properties.getInt(appenderPrefix + ".facility", -1) * 8; // * 8 to get LOG_KERN, etc. compatible values. 
+            int facility = _properties.getInt(appenderPrefix + ".facility", LOG_USER / 8) * 8; // * 8 to get LOG_KERN, etc. compatible values. 
             appender = new SyslogAppender(appenderName, syslogName, facility);
         }
 #endif // LOG4CPP_HAVE_SYSLOG
-- 
2.43.0


From a8eec83fb80d4e83a73a571b30a79a31ec191460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:36 +0000
Subject: [PATCH 075/105] fix: SimpleConfigurator: read patterns of any length

a pattern of 1000 or more characters was cut and the rest of the file ignored without an error
---
 3rd/log4cpp/src/SimpleConfigurator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/3rd/log4cpp/src/SimpleConfigurator.cpp b/3rd/log4cpp/src/SimpleConfigurator.cpp
index 72fb79d..80ec16c 100644
--- a/3rd/log4cpp/src/SimpleConfigurator.cpp
+++ b/3rd/log4cpp/src/SimpleConfigurator.cpp
@@ -173,9 +173,9 @@ namespace log4cpp {
                         log4cpp::PatternLayout *layout =
                             new log4cpp::PatternLayout();
 			initFile >> std::ws; // skip whitespace
-                        char pattern[1000];
-                        initFile.getline(pattern, 1000);
-                        layout->setConversionPattern(std::string(pattern));
+                        std::string pattern;
+                        std::getline(initFile, pattern);
+                        layout->setConversionPattern(pattern);
 			appender->setLayout(layout);
                     }
                     else {
-- 
2.43.0


From 367c10d1f9695cfbda7be0e1088bfac0b1bc6012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:35 +0000
Subject: [PATCH 076/105] fix: XML parser never reads past the end of truncated
 or unterminated input

truncated UTF-8 characters and unterminated text, attribute values, CDATA and comments made the parser read past the terminating null (and loop forever on a cut 0xEF character); unterminated comments and unknown tags were accepted
---
 3rd/tinyxml/tinyxml.h         |  7 +++++--
 3rd/tinyxml/tinyxmlparser.cpp | 36 ++++++++++++++++++++++++-----------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/3rd/tinyxml/tinyxml.h b/3rd/tinyxml/tinyxml.h
index c6f40cc..489e06e 100644
--- a/3rd/tinyxml/tinyxml.h
+++ b/3rd/tinyxml/tinyxml.h
@@ -349,10 +349,13 @@ protected:
 		{
 			//strncpy( _value, p, *length );	// lots of compilers don't like this function (unsafe),
 												// and the null terminator isn't needed
-			for( int i=0; p[i] && i<*length; ++i ) {
+			// A truncated character ends at the terminating null.
+			int i;
+			for( i=0; i<*length && p[i]; ++i ) {
 				_value[i] = p[i];
 			}
-			return p + (*length);
+			*length = i;
+			return p + i;
 		}
 		else
 		{
diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index 9c91b4f..74fcc4a 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -274,6 +274,12 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 						else
 							{ p +=3; ++col; }	// A normal character.
 					}
+					else
+					{
+						// A truncated character.
+						++p;
+						++col;
+					}
 				}
 				else
 				{
@@ -289,7 +295,12 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 					int step = TiXmlBase::utf8ByteTable[*((const unsigned char*)p)];
 					if ( step == 0 )
 						step = 1;		// Error case from bad encoding, but handle gracefully.
-					p += step;
+					// A truncated character must not take us past the terminating null.
+					while ( step > 0 && *p )
+					{
+						++p;
+						--step;
+					}
 
 					// Just advance one column, of course.
 					++col;
@@ -631,9 +642,9 @@ const char* TiXmlBase::ReadText(	const char* p,
 			}
 		}
 	}
-	if ( p ) 
+	if ( p && *p )
 		p += strlen( endTag );
-	return p;
+	return ( p && *p ) ? p : 0;
 }
 
 #ifdef TIXML_USE_STL
@@ -1276,7 +1287,7 @@ const char* TiXmlUnknown::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 	TiXmlDocument* document = GetDocument();
 	p = SkipWhiteSpace( p, encoding );
 
-	if ( data )
+	if ( data && p )
 	{
 		data->Stamp( p, encoding );
 		location = data->Cursor();
@@ -1295,13 +1306,12 @@ const char* TiXmlUnknown::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 		++p;
 	}
 
-	if ( !p )
+	if ( !p || !*p )
 	{
-		if ( document )	document->SetError( TIXML_ERROR_PARSING_UNKNOWN, 0, 0, encoding );
+		if ( document )	document->SetError( TIXML_ERROR_PARSING_UNKNOWN, p, data, encoding );
+		return 0;
 	}
-	if ( *p == '>' )
-		return p+1;
-	return p;
+	return p+1;
 }
 
 #ifdef TIXML_USE_STL
@@ -1379,8 +1389,12 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 		value.append( p, 1 );
 		++p;
 	}
-	if ( p ) 
-		p += strlen( endTag );
+	if ( !p || !*p )
+	{
+		if ( document ) document->SetError( TIXML_ERROR_PARSING_COMMENT, p, data, encoding );
+		return 0;
+	}
+	p += strlen( endTag );
 
 	return p;
 }
-- 
2.43.0


From cd649897fed3214221c2a3216fb35d5120d67376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:35 +0000
Subject: [PATCH 077/105] fix: XML comments and CDATA parsed outside a document
 report failure

parsing a comment or CDATA section outside a document called SetError on a null document when the text did not match
---
 3rd/tinyxml/tinyxmlparser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index 74fcc4a..98cc5ba 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -1349,7 +1349,7 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 
 	p = SkipWhiteSpace( p, encoding );
 
-	if ( data )
+	if ( data && p )
 	{
 		data->Stamp( p, encoding );
 		location = data->Cursor();
@@ -1359,7 +1359,7 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 
 	if ( !StringEqual( p, startTag, false, encoding ) )
 	{
-		document->SetError( TIXML_ERROR_PARSING_COMMENT, p, data, encoding );
+		if ( document ) document->SetError( TIXML_ERROR_PARSING_COMMENT, p, data, encoding );
 		return 0;
 	}
 	p += strlen( startTag );
@@ -1529,7 +1529,7 @@ const char* TiXmlText::Parse( const char* p, TiXmlParsingData* data, TiXmlEncodi
 
 		if ( !StringEqual( p, startTag, false, encoding ) )
 		{
-			document->SetError( TIXML_ERROR_PARSING_CDATA, p, data, encoding );
+			if ( document ) document->SetError( TIXML_ERROR_PARSING_CDATA, p, data, encoding );
 			return 0;
 		}
 		p += strlen( startTag );
-- 
2.43.0


From 4f65db5e577d7189b20f4d79bb68c55ea88869d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:35 +0000
Subject: [PATCH 078/105] fix: XML duplicate attributes and unterminated
 declarations are reported

an element with an attribute given twice ended the parse without an error and with the rest of the document missing; unterminated CDATA sections and declarations were accepted without an error
---
 3rd/tinyxml/tinyxmlparser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index 98cc5ba..46122d3 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -1175,6 +1175,7 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			{
 				node->SetValue( attrib->Value() );
 				delete attrib;
+				if ( document ) document->SetError( TIXML_ERROR_READING_ATTRIBUTES, pErr, data, encoding );
 				return 0;
 			}
 
@@ -1543,6 +1544,13 @@ const char* TiXmlText::Parse( const char* p, TiXmlParsingData* data, TiXmlEncodi
 			++p;
 		}
 
+		if ( !p || !*p )
+		{
+			// The end of the section is missing.
+			if ( document ) document->SetError( TIXML_ERROR_PARSING_CDATA, p, data, encoding );
+			return 0;
+		}
+
 		TIXML_STRING dummy; 
 		p = ReadText( p, &dummy, false, endTag, false, encoding );
 		return p;
@@ -1639,6 +1647,8 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
 				++p;
 		}
 	}
+	// The end of the declaration is missing or an attribute is malformed.
+	if ( document ) document->SetError( TIXML_ERROR_PARSING_DECLARATION, p, data, _encoding );
 	return 0;
 }
 
-- 
2.43.0


From 1532f9c559056a50f49c03fd5c1fde056797f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:35 +0000
Subject: [PATCH 079/105] fix: XML text that starts like a character reference
 is escaped

text containing '&#x' that is not a complete reference was printed unescaped up to the next ';' or the end, markup characters included, so the printed document was malformed or read back differently
---
 3rd/tinyxml/tinyxml.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/3rd/tinyxml/tinyxml.cpp b/3rd/tinyxml/tinyxml.cpp
index 5de21f6..9d2c7c0 100644
--- a/3rd/tinyxml/tinyxml.cpp
+++ b/3rd/tinyxml/tinyxml.cpp
@@ -56,28 +56,28 @@ void TiXmlBase::EncodeString( const TIXML_STRING& str, TIXML_STRING* outString )
 	{
 		unsigned char c = (unsigned char) str[i];
 
+		// Length of a hexadecimal character reference at this place, up to its ';'.
+		int reference = 0;
 		if (    c == '&' 
 		     && i < ( (int)str.length() - 2 )
 			 && str[i+1] == '#'
 			 && str[i+2] == 'x' )
+		{
+			int end = i + 3;
+			while ( end < (int)str.length() && isxdigit( (unsigned char) str[end] ) )
+				++end;
+			if ( end > i + 3 && end < (int)str.length() && str[end] == ';' )
+				reference = end - i;
+		}
+
+		if ( reference )
 		{
 			// Hexadecimal character reference.
 			// Pass through unchanged.
 			// &#xA9;	-- copyright symbol, for example.
-			//
-			// The -1 is a bug fix from Rob Laveaux. It keeps
-			// an overflow from happening if there is no ';'.
-			// There are actually 2 ways to exit this loop -
-			// while fails (error case) and break (semicolon found).
-			// However, there is no mechanism (currently) for
-			// this function to return an error.
-			while ( i<(int)str.length()-1 )
-			{
-				outString->append( str.c_str() + i, 1 );
-				++i;
-				if ( str[i] == ';' )
-					break;
-			}
+			// Anything else that starts like one is ordinary text.
+			outString->append( str, i, reference );
+			i += reference;
 		}
 		else if ( c == '&' )
 		{
-- 
2.43.0


From cf3fba47fd35f4bb69d301a6612ec4ac489eff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:35 +0000
Subject: [PATCH 080/105] fix: replacing an XML node by a document is refused

ReplaceChild put a document inside a tree where all other insertions refuse it
---
 3rd/tinyxml/tinyxml.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/3rd/tinyxml/tinyxml.cpp b/3rd/tinyxml/tinyxml.cpp
index 9d2c7c0..88f72d4 100644
--- a/3rd/tinyxml/tinyxml.cpp
+++ b/3rd/tinyxml/tinyxml.cpp
@@ -292,6 +292,12 @@ TiXmlNode* TiXmlNode::ReplaceChild( TiXmlNode* replaceThis, const TiXmlNode& wit
 	if ( replaceThis->parent != this )
 		return 0;
 
+	if ( withThis.Type() == TiXmlNode::DOCUMENT )
+	{
+		if ( GetDocument() ) GetDocument()->SetError( TIXML_ERROR_DOCUMENT_TOP_ONLY, 0, 0, TIXML_ENCODING_UNKNOWN );
+		return 0;
+	}
+
 	TiXmlNode* node = withThis.Clone();
 	if ( !node )
 		return 0;
-- 
2.43.0


From cd7aed694402d2c29a35dd1f70ec8587c36ed198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:35 +0000
Subject: [PATCH 081/105] fix: assigning an XML element or document from itself
 or from inside it

assigning an element to itself erased it, assigning it from one of its descendants used freed nodes, assigning a document to itself erased it
---
 3rd/tinyxml/tinyxml.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/3rd/tinyxml/tinyxml.cpp b/3rd/tinyxml/tinyxml.cpp
index 88f72d4..b0dcdb2 100644
--- a/3rd/tinyxml/tinyxml.cpp
+++ b/3rd/tinyxml/tinyxml.cpp
@@ -535,8 +535,10 @@ TiXmlElement::TiXmlElement( const TiXmlElement& copy)
 
 void TiXmlElement::operator=( const TiXmlElement& base )
 {
+	// The source may be this element or lie inside it.
+	TiXmlElement copy( base );
 	ClearThis();
-	base.CopyTo( this );
+	copy.CopyTo( this );
 }
 
 
@@ -922,6 +924,8 @@ TiXmlDocument::TiXmlDocument( const TiXmlDocument& copy ) : TiXmlNode( TiXmlNode
 
 void TiXmlDocument::operator=( const TiXmlDocument& copy )
 {
+	if ( this == &copy )
+		return;
 	Clear();
 	copy.CopyTo( this );
 }
-- 
2.43.0


From c8ad4b6b8627682119dc290909490769599954a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:35 +0000
Subject: [PATCH 082/105] fix: XML attributes hold large doubles

double attributes of 1e249 and more were cut to 255 characters
---
 3rd/tinyxml/tinyxml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/3rd/tinyxml/tinyxml.cpp b/3rd/tinyxml/tinyxml.cpp
index b0dcdb2..9ef35e0 100644
--- a/3rd/tinyxml/tinyxml.cpp
+++ b/3rd/tinyxml/tinyxml.cpp
@@ -712,7 +712,7 @@ void TiXmlElement::SetAttribute( const std::string& name, int val )
 
 void TiXmlElement::SetDoubleAttribute( const char * name, double val )
 {	
-	char buf[256];
+	char buf[512];	// the largest double has 309 digits before the decimal point
 	#if defined(TIXML_SNPRINTF)		
 		TIXML_SNPRINTF( buf, sizeof(buf), "%f", val );
 	#else
@@ -1274,7 +1274,7 @@ void TiXmlAttribute::SetIntValue( int _value )
 
 void TiXmlAttribute::SetDoubleValue( double _value )
 {
-	char buf [256];
+	char buf [512];	// the largest double has 309 digits before the decimal point
 	#if defined(TIXML_SNPRINTF)		
 		TIXML_SNPRINTF( buf, sizeof(buf), "%lf", _value);
 	#else
-- 
2.43.0


From f86b46beec532517a016d759e058d04485ab801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:35 +0000
Subject: [PATCH 083/105] fix: XML documents report files that cannot be
 written or read

saving to a full disk reported success; loading a directory threw length_error
---
 3rd/tinyxml/tinyxml.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/3rd/tinyxml/tinyxml.cpp b/3rd/tinyxml/tinyxml.cpp
index 9ef35e0..3a6fe1c 100644
--- a/3rd/tinyxml/tinyxml.cpp
+++ b/3rd/tinyxml/tinyxml.cpp
@@ -23,6 +23,7 @@ distribution.
 */
 
 #include <ctype.h>
+#include <limits.h>
 
 #ifdef TIXML_USE_STL
 #include <sstream>
@@ -999,6 +1000,12 @@ bool TiXmlDocument::LoadFile( FILE* file, TiXmlEncoding encoding )
 	fseek( file, 0, SEEK_SET );
 
 	// Strange case, but good to handle up front.
+	// (Directories can be opened, but have no meaningful size.)
+	if ( length == LONG_MAX )
+	{
+		SetError( TIXML_ERROR_OPENING_FILE, 0, 0, TIXML_ENCODING_UNKNOWN );
+		return false;
+	}
 	if ( length <= 0 )
 	{
 		SetError( TIXML_ERROR_DOCUMENT_EMPTY, 0, 0, TIXML_ENCODING_UNKNOWN );
@@ -1122,7 +1129,8 @@ bool TiXmlDocument::SaveFile( FILE* fp ) const
 		fputc( TIXML_UTF_LEAD_2, fp );
 	}
 	Print( fp, 0 );
-	return (ferror(fp) == 0);
+	// Errors may show up only when the buffered data is written.
+	return (fflush(fp) == 0 && ferror(fp) == 0);
 }
 
 
-- 
2.43.0


From aea2ef2c1e8a5619ad6cd37c72ec99c26e567f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:33 +0000
Subject: [PATCH 084/105] fix: reading XML from a stream stops at a null
 character

a null character in the text of an element made operator>> loop forever; a '>' at the start of a streamed comment threw out_of_range
---
 3rd/tinyxml/tinyxmlparser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index 46122d3..4f47e47 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -966,6 +966,15 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
 				TiXmlText text( "" );
 				text.StreamIn( in, tag );
 
+				// A null character ends the stream, as everywhere else.
+				if ( in->good() && in->peek() <= 0 )
+				{
+					TiXmlDocument* document = GetDocument();
+					if ( document )
+						document->SetError( TIXML_ERROR_EMBEDDED_NULL, 0, 0, TIXML_ENCODING_UNKNOWN );
+					return;
+				}
+
 				// What follows text is a closing tag or another node.
 				// Go around again and figure it out.
 				continue;
@@ -1332,6 +1341,7 @@ void TiXmlComment::StreamIn( std::istream * in, TIXML_STRING * tag )
 		(*tag) += (char) c;
 
 		if ( c == '>' 
+			 && tag->length() >= 3
 			 && tag->at( tag->length() - 2 ) == '-'
 			 && tag->at( tag->length() - 3 ) == '-' )
 		{
-- 
2.43.0


From 9c1b0ac2e2c133192fb7608e73b638ca553e11bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:05 +0000
Subject: [PATCH 085/105] fix: XML parser reports documents that are nested too
 deeply

documents with many thousands of nested elements overflowed the stack of the recursive parser
---
 3rd/tinyxml/tinyxml.h         |  4 +++-
 3rd/tinyxml/tinyxmlerror.cpp  |  1 +
 3rd/tinyxml/tinyxmlparser.cpp | 10 ++++++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/3rd/tinyxml/tinyxml.h b/3rd/tinyxml/tinyxml.h
index 489e06e..eaa9a69 100644
--- a/3rd/tinyxml/tinyxml.h
+++ b/3rd/tinyxml/tinyxml.h
@@ -281,6 +281,7 @@ public:
 		TIXML_ERROR_EMBEDDED_NULL,
 		TIXML_ERROR_PARSING_CDATA,
 		TIXML_ERROR_DOCUMENT_TOP_ONLY,
+		TIXML_ERROR_NESTING_TOO_DEEP,
 
 		TIXML_ERROR_STRING_COUNT
 	};
@@ -410,7 +411,8 @@ private:
 	enum
 	{
 		NUM_ENTITY = 5,
-		MAX_ENTITY_LENGTH = 6
+		MAX_ENTITY_LENGTH =  6,
+		MAX_NESTING = 1000		// parsing is recursive, the stack is limited
 
 	};
 	static Entity entity[ NUM_ENTITY ];
diff --git a/3rd/tinyxml/tinyxmlerror.cpp b/3rd/tinyxml/tinyxmlerror.cpp
index d24f63b..8c48c67 100644
--- a/3rd/tinyxml/tinyxmlerror.cpp
+++ b/3rd/tinyxml/tinyxmlerror.cpp
@@ -50,4 +50,5 @@ const char* TiXmlBase::errorString[ TIXML_ERROR_STRING_COUNT ] =
 	"Error null (0) or unexpected EOF found in input stream.",
 	"Error parsing CDATA.",
 	"Error when TiXmlDocument added to document, because TiXmlDocument can only be at the root.",
+	"Error: elements are nested too deeply.",
 };
diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index 4f47e47..2093073 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -844,6 +844,16 @@ TiXmlNode* TiXmlNode::Identify( const char* p, TiXmlEncoding encoding )
 		return 0;
 	}
 
+	int nesting = 0;
+	for ( const TiXmlNode* node = this; node; node = node->parent )
+	{
+		if ( ++nesting > MAX_NESTING )
+		{
+			if ( doc ) doc->SetError( TIXML_ERROR_NESTING_TOO_DEEP, 0, 0, encoding );
+			return 0;
+		}
+	}
+
 	// What is this thing? 
 	// - Elements start with a letter or underscore, but xml is reserved.
 	// - Comments: <!--
-- 
2.43.0


From e2927ad4d6d966f52ce0c54decd901ed520a23ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:06 +0000
Subject: [PATCH 086/105] fix: close the descriptor when a serial port cannot
 be configured

SerialPort::open of something that is not a terminal leaked the file descriptor
---
 src/utUtil/SerialPort.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 8f15fc1..9224d20 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -296,7 +296,10 @@ void SerialPort::open( int vtime, int vmin )
 		UBITRACK_THROW( "Cannot open special file" );
 
 	if ( tcgetattr( m_fileDescriptor, &m_termiosCurrent ) )
+	{
+		::close( m_fileDescriptor );
 		UBITRACK_THROW( "Cannot get port parameter" );
+	}
 
 	m_termiosOriginal = m_termiosCurrent;
 
@@ -314,7 +317,10 @@ void SerialPort::open( int vtime, int vmin )
 	cfsetispeed( &m_termiosCurrent, baud );
 
 	if ( tcsetattr( m_fileDescriptor, TCSANOW, &m_termiosCurrent ) < 0 )
+	{
+		::close( m_fileDescriptor );
 		UBITRACK_THROW( "Cannot set port parameter" );
+	}
 
 	m_portOpen = true;
 }
-- 
2.43.0


From 78d0b980456c645c35594fa6d93cee5f83ba3444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:06 +0000
Subject: [PATCH 087/105] fix: a closed serial port is not open

SerialPort::close left the port marked open: a second close (or the destructor) closed a foreign descriptor, open after close did nothing and read/send used a foreign descriptor
---
 src/utUtil/SerialPort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 9224d20..6d5df40 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -338,6 +338,7 @@ void SerialPort::close()
 	}
 
 	::close( m_fileDescriptor );
+	m_portOpen = false;
 }
 
 unsigned long SerialPort::read( unsigned char* buffer, unsigned long size )
-- 
2.43.0


From a8ab6d06ec823ccfe522daeffcd59a39709ce7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:06 +0000
Subject: [PATCH 088/105] fix: report errors when sending to or polling a
 serial port

SerialPort::send returned 2^64-1 when writing failed and bytesOnRead an uninitialised number when the line was gone
---
 src/utUtil/SerialPort.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 6d5df40..d8da326 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -365,6 +365,9 @@ unsigned long SerialPort::send( const unsigned char* buffer, unsigned long size
 
 	writtenBytes = write ( m_fileDescriptor, buffer, size );
 
+	if ( writtenBytes < 0 )
+		UBITRACK_THROW( "Error sending bytes" );
+
 	return writtenBytes;
 }
 
@@ -373,8 +376,9 @@ unsigned long SerialPort::bytesOnRead()
 	if ( !m_portOpen )
 		UBITRACK_THROW( "Port is not open" );
 
-	int onread;
-	ioctl( m_fileDescriptor, FIONREAD, (char*) &onread );
+	int onread = 0;
+	if ( ioctl( m_fileDescriptor, FIONREAD, (char*) &onread ) < 0 )
+		UBITRACK_THROW( "Error reading number of bytes" );
 
 	return onread;
 }
-- 
2.43.0


From f7d94182a10deb4ca61eb9da23afb454fb0b1ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:06 +0000
Subject: [PATCH 089/105] fix: check that the serial port is open before flush
 and break

SerialPort::flush and sendBreak on a port that is not open used an uninitialised descriptor
---
 src/utUtil/SerialPort.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index d8da326..9bdc662 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -385,11 +385,17 @@ unsigned long SerialPort::bytesOnRead()
 
 void SerialPort::sendBreak()
 {
+	if ( !m_portOpen )
+		UBITRACK_THROW( "Port is not open" );
+
 	tcsendbreak( m_fileDescriptor, 0 );
 }
 
 void SerialPort::flush()
 {
+	if ( !m_portOpen )
+		UBITRACK_THROW( "Port is not open" );
+
 	tcflush( m_fileDescriptor, TCIOFLUSH );
 }
 
-- 
2.43.0


From d0276eaf633043d849d4192d93cd3c9a8ba4b01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:06 +0000
Subject: [PATCH 090/105] fix: keep the requested data bits and parity of a
 serial port

SerialPort::open set data bits and parity and then reset them to 8N by cfmakeraw
---
 src/utUtil/SerialPort.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 9bdc662..dcbd504 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -303,13 +303,13 @@ void SerialPort::open( int vtime, int vmin )
 
 	m_termiosOriginal = m_termiosCurrent;
 
+	cfmakeraw( &m_termiosCurrent );
+
 	m_termiosCurrent.c_cflag = baud | size | parity | stop | CLOCAL | CREAD;
 	m_termiosCurrent.c_oflag = 0;
 	m_termiosCurrent.c_iflag = IGNBRK | IGNPAR;
 	m_termiosCurrent.c_lflag = 0;
 
-	cfmakeraw( &m_termiosCurrent );
-
 	m_termiosCurrent.c_cc[VTIME] = vtime;
 	m_termiosCurrent.c_cc[VMIN]  = vmin;
 
-- 
2.43.0


From 699adee941919c8a685fdbe06af05e01c7150d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:06 +0000
Subject: [PATCH 091/105] fix: file search skips entries that cannot be
 resolved

globFiles failed on a directory that contains a symbolic link loop
---
 src/utUtil/GlobFiles.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utUtil/GlobFiles.cpp b/src/utUtil/GlobFiles.cpp
index 447abeb..1c3ef3a 100644
--- a/src/utUtil/GlobFiles.cpp
+++ b/src/utUtil/GlobFiles.cpp
@@ -52,15 +52,19 @@ void globFiles( const std::string& directory, const std::string & patternString,
 #else
 			boost::filesystem::path p( *it );
 #endif
+			// an entry that cannot be resolved, e.g. a symbolic link to itself, does not exist
+			boost::system::error_code ec;
+			const boost::filesystem::file_status status = boost::filesystem::status( p, ec );
+
 			// check for files with suitable extension
-			if ( boost::filesystem::exists( p ) && ! boost::filesystem::is_directory( p ) && boost::regex_match( p.filename().string(), ext ) )
+			if ( boost::filesystem::exists( status ) && ! boost::filesystem::is_directory( status ) && boost::regex_match( p.filename().string(), ext ) )
 			{
 				LOG4CPP_TRACE( logger, "Adding file " << p << " to list" );
 
 				files.push_back( p );
 			}
 			// glob directories, if desired
-			else if ( globDirectories && boost::filesystem::exists( p ) && boost::filesystem::is_directory( p ) )
+			else if ( globDirectories && boost::filesystem::is_directory( status ) )
 			{
 				files.push_back( p );
 			}
-- 
2.43.0


From 95441b4dd8c9319c14c7c292aa0b5fc0197277c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:07 +0000
Subject: [PATCH 092/105] fix: sleep for the whole time when interrupted by a
 signal

Util::sleep returned early when a signal was delivered
---
 src/utUtil/OS.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utUtil/OS.cpp b/src/utUtil/OS.cpp
index c78cabd..e36936b 100644
--- a/src/utUtil/OS.cpp
+++ b/src/utUtil/OS.cpp
@@ -33,6 +33,7 @@
 #ifdef WIN32
 #include "CleanWindows.h"
 #else
+#include <errno.h>
 #include <time.h>
 #include <sys/time.h>
 #endif
@@ -74,7 +75,9 @@ void sleep( unsigned ms, unsigned ns )
 		t.tv_sec++;
 		t.tv_nsec -= 1000000000;
 	}
-	nanosleep( &t, NULL );
+	// continue after signals
+	while ( nanosleep( &t, &t ) != 0 && errno == EINTR )
+		;
 }
 
 
-- 
2.43.0


From c38b4f12c15482ad9e745e5bd1eb5b1ea825d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:07 +0000
Subject: [PATCH 093/105] fix: take elapsed times from a clock that cannot be
 set

a step of the system time during a timed block entered the BlockTimer totals, a step back as a huge unsigned number
---
 src/utUtil/OS.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utUtil/OS.cpp b/src/utUtil/OS.cpp
index e36936b..f78d4b3 100644
--- a/src/utUtil/OS.cpp
+++ b/src/utUtil/OS.cpp
@@ -35,7 +35,6 @@
 #else
 #include <errno.h>
 #include <time.h>
-#include <sys/time.h>
 #endif
 
 namespace Ubitrack { namespace Util {
@@ -84,9 +83,10 @@ void sleep( unsigned ms, unsigned ns )
 long long getHighPerformanceCounter()
 {
 	// TODO: read CPU counter
-	struct timeval tv;
-	gettimeofday( &tv, 0 );
-	return tv.tv_sec * static_cast< long long >( 1000000 ) + tv.tv_usec;
+	// must not be affected by changes of the system time
+	timespec t;
+	clock_gettime( CLOCK_MONOTONIC, &t );
+	return t.tv_sec * static_cast< long long >( 1000000 ) + t.tv_nsec / 1000;
 }
 
 
-- 
2.43.0


From 0369fdad7a88da844224edc37cd5bdb681d01639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:15 +0000
Subject: [PATCH 094/105] fix: initialise the code line of block timers

a BlockTimer whose blocks were timed without UBITRACK_TIME logged an uninitialised code line
---
 src/utUtil/BlockTimer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utUtil/BlockTimer.h b/src/utUtil/BlockTimer.h
index 844eb6b..778b14c 100644
--- a/src/utUtil/BlockTimer.h
+++ b/src/utUtil/BlockTimer.h
@@ -111,6 +111,7 @@ public:
 	BlockTimer( const std::string& sName, const std::string& sLoggingCategory = std::string() )
 		: m_sName( sName )
 		, m_pLogger( sLoggingCategory.empty() ? 0 : &log4cpp::Category::getInstance( sLoggingCategory ) )
+		, m_nCodeLine( 0 )
 		, m_bInitialized( false )
 		, m_nRuns( 0 )
 		, m_nTicks( 0 )
@@ -125,6 +126,7 @@ public:
 	BlockTimer( const std::string& sName, log4cpp::Category& logger )
 		: m_sName( sName )
 		, m_pLogger( &logger )
+		, m_nCodeLine( 0 )
 		, m_bInitialized( false )
 		, m_nRuns( 0 )
 		, m_nTicks( 0 )
-- 
2.43.0


From 1237ec3b63c3819c9312693a19d4107305e5f864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:46 +0000
Subject: [PATCH 095/105] fix: reading a measurement does not change other
 holders of the old value

deserialising into a measurement that shared its payload overwrote the value (but not the time) of the other holders
---
 src/utMeasurement/Measurement.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utMeasurement/Measurement.h b/src/utMeasurement/Measurement.h
index f586fb4..c99cd19 100644
--- a/src/utMeasurement/Measurement.h
+++ b/src/utMeasurement/Measurement.h
@@ -248,14 +248,14 @@ class Measurement
 		template< class Archive > 
 		void serialize( Archive& ar, const unsigned int version )
 		{
+			// there is no representation of an empty measurement, but one can be read into
+			if ( !Archive::is_loading::value && this->get() == 0 )
+				UBITRACK_THROW( "Cannot serialize a measurement without a value" );
 			ar & m_timestamp;
-			if ( this->get() == 0 )
-			{
-				// there is no representation of an empty measurement, but one can be read into
-				if ( !Archive::is_loading::value )
-					UBITRACK_THROW( "Cannot serialize a measurement without a value" );
+
+			// the old value may be shared with other measurements that keep it (and their time)
+			if ( Archive::is_loading::value )
 				this->reset( new Type() );
-			}
 			ar & ( *(this->get()) );
 		}
 };
-- 
2.43.0


From fe8231c4cd8dd7b1e1a70d4a4c9fa1701d27a2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:12 +0000
Subject: [PATCH 096/105] fix: pseudo-inverse of non-finite matrices does not
 hang

pseudoInvert_matrix never returned for matrices with infinite or undefined entries
---
 src/utMath/MatrixOperations.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utMath/MatrixOperations.h b/src/utMath/MatrixOperations.h
index 3621dca..7184968 100644
--- a/src/utMath/MatrixOperations.h
+++ b/src/utMath/MatrixOperations.h
@@ -37,10 +37,12 @@
 #include "Matrix.h"
 #include <boost/numeric/ublas/matrix_proxy.hpp>
 #include <algorithm>
+#include <cmath>
 #include <limits>
 
 
 #include <utUtil/StaticAssert.h>
+#include <utUtil/Exception.h>
 
 #ifdef HAVE_LAPACK
 #include <boost/numeric/bindings/lapack/gesv.hpp>
@@ -117,6 +119,12 @@ Math::Matrix< T, N, M > pseudoInvert_matrix( const Math::Matrix< T, M, N >& mat
 	size_type m = mat.size2();
 	size_type nSingularValues = std::min( n, m );
 	
+	// the singular value decomposition may never end for such values
+	for ( size_type r = 0; r < n; r++ )
+		for ( size_type c = 0; c < m; c++ )
+			if ( !( std::abs( mat( r, c ) ) <= std::numeric_limits< T >::max() ) )
+				UBITRACK_THROW( "A matrix with infinite or undefined entries has no pseudo-inverse" );
+
 	Math::Vector< T > s( nSingularValues );
 	Math::Matrix< T, 0, 0 > U( n, n );
 	Math::Matrix< T, 0, 0 > Vt( m, m );
-- 
2.43.0


From 19f69b3dcefe80de851055d976ee314b4741fd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:37 +0000
Subject: [PATCH 097/105] fix: Levenberg-Marquardt ends for residuals which are
 not finite

without an iteration limit the optimisation never ended when the residual was undefined or infinite
---
 src/utMath/Optimization/LevenbergMarquardt.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/utMath/Optimization/LevenbergMarquardt.h b/src/utMath/Optimization/LevenbergMarquardt.h
index 1a72a96..3eaf2c5 100644
--- a/src/utMath/Optimization/LevenbergMarquardt.h
+++ b/src/utMath/Optimization/LevenbergMarquardt.h
@@ -128,6 +128,10 @@ typename X::value_type weightedLevenbergMarquardt( P& problem, X& params, const
 	T fLambda = T( fStepSize );
 	std::size_t iteration = 0;
 	bool bTerminate = false;
+	// no step can improve a residual which is not a finite number
+	if ( !( fErrPrev <= std::numeric_limits< T >::max() ) )
+		return fErrPrev;
+
 	while ( !bTerminate )
 	{
 		++iteration;
@@ -209,7 +213,13 @@ typename X::value_type weightedLevenbergMarquardt( P& problem, X& params, const
 
 		// update parameters
 		if ( !( fErr < fErrPrev ) ) // also rejects steps leaving the domain of the problem (NaN)
+		{
 			fLambda *= T( fStepFactor );
+
+			// no step can become any smaller
+			if ( !( fLambda <= std::numeric_limits< T >::max() ) )
+				bTerminate = true;
+		}
 		else
 		{
 			fLambda /= T( fStepFactor );
-- 
2.43.0


From e9945c76da3a0fbc6a64616e89558c5ee51da089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:37 +0000
Subject: [PATCH 098/105] fix: assignment of non-finite costs does not hang

Munkres never returned for cost matrices with undefined entries (e.g. from reconstruct3DPoints with a degenerate fundamental matrix)
---
 src/utMath/Graph/Munkres.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index 6056c1e..b24f56f 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -42,6 +42,8 @@
 #include <utCore.h>
 #include <utMath/Vector.h>
 #include <utMath/Matrix.h>
+#include <utUtil/Exception.h>
+#include <limits>
 #include <list>
 #include <vector>
 
@@ -341,6 +343,10 @@ int Munkres< T >::step5()
 		}
 	}
 
+	// otherwise no new zero would ever be made
+	if ( !( h > 0 && h <= std::numeric_limits< T >::max() ) )
+		UBITRACK_THROW( "The costs of an assignment have to be finite" );
+
 	for ( std::size_t row( 0 ) ; row < m_max ; ++row )
 		for ( std::size_t col( 0 ) ; col < m_max ; ++col ) 
 		{
-- 
2.43.0


From a1beda95365e8531e69b850927b3d3108c68fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:45 +0000
Subject: [PATCH 099/105] fix: observations of unknown points or cameras are
 reported

multipleCameraPoseError read outside the lists for observations of unknown points or cameras
---
 src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
index f00908e..1e509d2 100644
--- a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
+++ b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
@@ -227,6 +227,10 @@ Math::Matrix< T, 6, 6 > multipleCameraPoseErrorImpl( const Math::Pose& p,
 	const std::vector< std::pair< std::size_t, std::size_t > > observations, 
 	T imageError )
 {
+	for ( std::size_t i = 0; i < observations.size(); i++ )
+		if ( observations[ i ].first >= p3D.size() || observations[ i ].second >= cameras.size() )
+			UBITRACK_THROW( "Observation of an unknown point or camera" );
+
 	// copy rot & trans to parameter vector
 	Vector< T, 7 > params;
 	p.toVector( params );
-- 
2.43.0


From 6c71ce30a35f66762658e48f2c4a9131c008da5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 100/105] fix: hand-eye calibration starts again when given
 fewer poses

HandEyeCalibration::estimatePose6D called with fewer poses than before wrote outside its lists
---
 src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h b/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
index e59f680..f79d390 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
@@ -92,6 +92,15 @@ protected:
 	{
 		const std::size_t n = eyePoseList.size();
 		assert( n == handPoseList.size() );
+		// fewer poses than before: start again
+		if ( n < m_lastIndex )
+		{
+			m_lastIndex = 0;
+			relativePosesAllA.clear();
+			relativePosesAllB.clear();
+			m_DataSelection.comparisonPoseList.clear();
+		}
+
 		updateRelativePoses< true >( handPoseList, relativePosesAllA );
 		updateRelativePoses< false >( eyePoseList, relativePosesAllB );
 		m_lastIndex = n;
-- 
2.43.0


From a3cd4e74e93fab8b3ac713b8b3a160d272d1f881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:24 +0000
Subject: [PATCH 101/105] fix: cluster selection accepts short lists and
 unusable distances

copy_greedy and copy_probability read outside lists shorter than the number of clusters; undefined distances recursed endlessly; k_means without clusters read outside its list
---
 src/utMath/Stochastic/k_means.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Stochastic/k_means.h b/src/utMath/Stochastic/k_means.h
index fc56ee9..ffb21b1 100644
--- a/src/utMath/Stochastic/k_means.h
+++ b/src/utMath/Stochastic/k_means.h
@@ -168,7 +168,8 @@ template< typename InputIterator, typename OutputIterator >
 void copy_greedy( const InputIterator iBegin, const InputIterator iEnd, const std::size_t n_cluster, OutputIterator itSelected )
 {
 	typedef typename std::iterator_traits< InputIterator >::value_type vector_type;
-	const InputIterator itFinal = iBegin + n_cluster;
+	const std::size_t n = std::distance( iBegin, iEnd );
+	const InputIterator itFinal = iBegin + std::min( n, n_cluster );
 	for( InputIterator iter = iBegin;  iter<itFinal ; ++iter )
 		(*itSelected++) = ( *iter );
 };
@@ -209,6 +210,9 @@ std::size_t copy_probability( const InputIterator iBegin, const InputIterator iE
 	typedef typename std::size_t size_type;
 
 	const std::size_t n = std::distance( iBegin, iEnd );
+	if( n == 0 || n_cluster == 0 )
+		return 0;
+
 	std::size_t index = Math::Random::distribute_uniform< std::size_t >( 0, n-1 );
 	
 	// assign first selected element
@@ -224,7 +228,8 @@ std::size_t copy_probability( const InputIterator iBegin, const InputIterator iE
 
 	for( size_type k( 1 ); k < n_cluster; ++k, ++itSelected )
 	{
-		if( dist_sum<= 0 )
+		// no further elements, or no usable distances
+		if( !( dist_sum > 0 && dist_sum <= std::numeric_limits< value_type >::max() ) )
 			return k;
 
 		value_type max_range = Math::Random::distribute_uniform< value_type >( 0, dist_sum );
@@ -295,6 +300,8 @@ typename std::iterator_traits< OutputIterator >::value_type::value_type k_means(
 	
 	const std::size_t n = std::distance( iBegin, iEnd );
 	const std::size_t n_cluster = std::distance( itMeanBegin, itMeanEnd );
+	if( n == 0 || n_cluster == 0 )
+		return 0;
 	assert( n > n_cluster );
 	// std::cout << "k-means called with " << n << " elements to determine " << n_cluster << " clusters\n";
 
-- 
2.43.0


From d1bd7487c1ed0db768edea2f434f3271ab473bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:24 +0000
Subject: [PATCH 102/105] fix: selecting more poses than exist does not reserve
 their memory

select_6DPoses reserved memory for the requested number of poses and threw length_error for large numbers
---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
index 82c8020..771e0e8 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
@@ -142,8 +142,8 @@ UBITRACK_EXPORT void select_6DPoses( const std::vector< Math::Pose >& eyes
 	, std::vector< Math::Pose >& eyesOut
 	, std::vector< Math::Pose >& handsOut  )
 {
-	eyesOut.reserve( select );
-	handsOut.reserve( select );
+	eyesOut.reserve( std::min( select, eyes.size() ) );
+	handsOut.reserve( std::min( select, hands.size() ) );
 	
 	pose6D_selection_impl< true, double >( eyes.begin(), eyes.end(), hands.begin(), hands.end(), select, std::back_inserter( eyesOut ), std::back_inserter( handsOut ) );
 	
-- 
2.43.0


From 953167c3f0aaff6a7ef1573b5b706714a4451933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:04 +0000
Subject: [PATCH 103/105] fix: singular value decompositions of non-finite
 matrices do not hang

get3DPosition, poseFromFundamentalMatrix, optimizePose and others never returned for infinite or undefined values
---
 .../boost/numeric/bindings/lapack/gelss.hpp   | 27 +++++++++++++++++++
 .../boost/numeric/bindings/lapack/gesvd.hpp   | 23 ++++++++++++++++
 2 files changed, 50 insertions(+)

diff --git a/3rd/boost-bindings/boost/numeric/bindings/lapack/gelss.hpp b/3rd/boost-bindings/boost/numeric/bindings/lapack/gelss.hpp
index c108af7..392f119 100644
--- a/3rd/boost-bindings/boost/numeric/bindings/lapack/gelss.hpp
+++ b/3rd/boost-bindings/boost/numeric/bindings/lapack/gelss.hpp
@@ -28,6 +28,8 @@
 #endif 
 
 #include <cassert>
+#include <cstddef>
+#include <limits>
 
 
 namespace boost { namespace numeric { namespace bindings { 
@@ -83,12 +85,32 @@ namespace boost { namespace numeric { namespace bindings {
 
     namespace detail {
 
+      /* the decomposition of matrices with infinite or undefined entries may never end */
+      template <typename T>
+      inline
+      bool gelss_finite (int const m, int const n, T const* a, int const lda)
+      {
+        for (int c = 0; c < n; ++c)
+          for (int r = 0; r < m; ++r)
+          {
+            T const v = a[r + static_cast<std::size_t> (c) * lda];
+            if (!(v <= (std::numeric_limits<T>::max)() && v >= -(std::numeric_limits<T>::max)()))
+              return false;
+          }
+        return true;
+      }
+
       inline 
       void gelss(int const m, int const n, int const nrhs,
                  float* a, int const lda, float* b, int const ldb,
                  float* s, const float rcond, int* rank,
                  float* work, int const lwork, int* info) 
       {
+        if (!gelss_finite (m, n, a, lda))
+        {
+          *info = 1; // did not converge
+          return;
+        }
         LAPACK_SGELSS (&m, &n, &nrhs, a, &lda, b, &ldb, s, &rcond, rank, work, &lwork, info);
       }
 
@@ -98,6 +120,11 @@ namespace boost { namespace numeric { namespace bindings {
                  double* s, const double rcond, int* rank,
                  double* work, int const lwork, int* info) 
       {
+        if (!gelss_finite (m, n, a, lda))
+        {
+          *info = 1; // did not converge
+          return;
+        }
         LAPACK_DGELSS (&m, &n, &nrhs, a, &lda, b, &ldb, s, &rcond, rank, work, &lwork, info);
       }
 
diff --git a/3rd/boost-bindings/boost/numeric/bindings/lapack/gesvd.hpp b/3rd/boost-bindings/boost/numeric/bindings/lapack/gesvd.hpp
index 34c068d..2b73bd7 100644
--- a/3rd/boost-bindings/boost/numeric/bindings/lapack/gesvd.hpp
+++ b/3rd/boost-bindings/boost/numeric/bindings/lapack/gesvd.hpp
@@ -28,6 +28,10 @@
 #  include <boost/type_traits/is_same.hpp>
 #endif 
 
+#include <cstddef>
+#include <limits>
+#include <stdexcept>
+
 namespace boost { namespace numeric { namespace bindings { 
 
   namespace lapack {
@@ -57,6 +61,21 @@ namespace boost { namespace numeric { namespace bindings {
 
     namespace detail {
 
+      /* the decomposition of matrices with infinite or undefined entries may never end */
+      template <typename T>
+      inline
+      bool gesvd_finite (int const m, int const n, T const* a, int const lda)
+      {
+        for (int c = 0; c < n; ++c)
+          for (int r = 0; r < m; ++r)
+          {
+            T const v = a[r + static_cast<std::size_t> (c) * lda];
+            if (!(v <= (std::numeric_limits<T>::max)() && v >= -(std::numeric_limits<T>::max)()))
+              return false;
+          }
+        return true;
+      }
+
       inline 
       void gesvd (char const jobu, char const jobvt, 
                   int const m, int const n, float* a, int const lda, 
@@ -65,6 +84,8 @@ namespace boost { namespace numeric { namespace bindings {
                   float* work, int const lwork, float* /* dummy */, 
                   int* info)
       {
+        if (lwork != -1 && !gesvd_finite (m, n, a, lda))
+          throw std::domain_error ("singular value decomposition of a matrix with infinite or undefined entries");
         LAPACK_SGESVD (&jobu, &jobvt, &m, &n, a, &lda, 
                        s, u, &ldu, vt, &ldvt, work, &lwork, info); 
       }
@@ -77,6 +98,8 @@ namespace boost { namespace numeric { namespace bindings {
                   double* work, int const lwork, double* /* dummy */, 
                   int* info)
       {
+        if (lwork != -1 && !gesvd_finite (m, n, a, lda))
+          throw std::domain_error ("singular value decomposition of a matrix with infinite or undefined entries");
         LAPACK_DGESVD (&jobu, &jobvt, &m, &n, a, &lda, 
                        s, u, &ldu, vt, &ldvt, work, &lwork, info); 
       }
-- 
2.43.0


From 1f5086aa04c00502f7cd7b61271bfe1673ecdc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:09 +0000
Subject: [PATCH 104/105] fix: random numbers do not race between threads

threads drawing random numbers (robust estimation, clustering, hand-eye calibration) shared a generator without a lock; its index ran out of bounds
---
 src/utMath/Random/Scalar.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utMath/Random/Scalar.h b/src/utMath/Random/Scalar.h
index e3b91ca..e7d260c 100644
--- a/src/utMath/Random/Scalar.h
+++ b/src/utMath/Random/Scalar.h
@@ -58,7 +58,12 @@ namespace Ubitrack { namespace Math { namespace Random {
 
 #ifdef RANDOM_BOOST
 /// Random Number Generator used every call
+/// every thread has its own, as the generator cannot be shared
+#if defined( BOOST_NO_CXX11_THREAD_LOCAL ) || __cplusplus < 201103L
 static boost::mt19937 RNG; 
+#else
+static thread_local boost::mt19937 RNG; 
+#endif
 #endif
 
 /** 
-- 
2.43.0


From cd47b53dc458d20ff7a53db647985d6a726ece40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:51 +0000
Subject: [PATCH 105/105] fix: Levenberg-Marquardt recovers from a vanished
 damping

the damping factor could become zero and never grew again, so that optimisations without an iteration limit never ended
---
 src/utMath/Optimization/LevenbergMarquardt.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/LevenbergMarquardt.h b/src/utMath/Optimization/LevenbergMarquardt.h
index 3eaf2c5..e9f6456 100644
--- a/src/utMath/Optimization/LevenbergMarquardt.h
+++ b/src/utMath/Optimization/LevenbergMarquardt.h
@@ -37,6 +37,8 @@
 #ifdef HAVE_LAPACK
 
 // Boost
+#include <algorithm>
+#include <limits>
 #include <boost/scoped_ptr.hpp>
 
 #include <boost/numeric/ublas/matrix_proxy.hpp>
@@ -214,7 +216,7 @@ typename X::value_type weightedLevenbergMarquardt( P& problem, X& params, const
 		// update parameters
 		if ( !( fErr < fErrPrev ) ) // also rejects steps leaving the domain of the problem (NaN)
 		{
-			fLambda *= T( fStepFactor );
+			fLambda = std::max( T( fLambda * fStepFactor ), std::numeric_limits< T >::denorm_min() ); // may have become zero
 
 			// no step can become any smaller
 			if ( !( fLambda <= std::numeric_limits< T >::max() ) )
-- 
2.43.0

